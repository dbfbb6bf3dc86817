//! Z3 C API (QF_BV) back end: satisfiability of conjunctions of 1-bit expressions.
use crate::expr::*;
use std::ffi::CString;
use std::os::raw::{c_char, c_int, c_uint, c_void};
type P = *mut c_void;
extern "C" {
    fn Z3_mk_config() -> P;
    fn Z3_mk_context_rc(c: P) -> P;
    fn Z3_set_param_value(c: P, k: *const c_char, v: *const c_char);
    fn Z3_inc_ref(c: P, a: P);
    fn Z3_mk_string_symbol(c: P, s: *const c_char) -> P;
    fn Z3_mk_bv_sort(c: P, w: c_uint) -> P;
    fn Z3_mk_const(c: P, s: P, so: P) -> P;
    fn Z3_mk_numeral(c: P, s: *const c_char, so: P) -> P;
    fn Z3_mk_bvadd(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsub(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvmul(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvudiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsdiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvurem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsrem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvand(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvxor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvshl(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvlshr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvashr(c: P, a: P, b: P) -> P;
    fn Z3_mk_concat(c: P, a: P, b: P) -> P;
    fn Z3_mk_extract(c: P, hi: c_uint, lo: c_uint, a: P) -> P;
    fn Z3_mk_sign_ext(c: P, n: c_uint, a: P) -> P;
    fn Z3_mk_eq(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvult(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvslt(c: P, a: P, b: P) -> P;
    fn Z3_mk_ite(c: P, a: P, b: P, d: P) -> P;
    fn Z3_mk_and(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_or(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_xor(c: P, a: P, b: P) -> P;
    fn Z3_mk_not(c: P, a: P) -> P;
    fn Z3_mk_true(c: P) -> P;
    fn Z3_mk_false(c: P) -> P;
    fn Z3_mk_solver_for_logic(c: P, s: P) -> P;
    fn Z3_solver_inc_ref(c: P, s: P);
    fn Z3_solver_dec_ref(c: P, s: P);
    fn Z3_solver_assert(c: P, s: P, a: P);
    fn Z3_solver_check(c: P, s: P) -> c_int;
    fn Z3_solver_get_model(c: P, s: P) -> P;
    fn Z3_solver_set_params(c: P, s: P, p: P);
    fn Z3_mk_params(c: P) -> P;
    fn Z3_params_inc_ref(c: P, p: P);
    fn Z3_params_set_uint(c: P, p: P, k: P, v: c_uint);
    fn Z3_model_inc_ref(c: P, m: P);
    fn Z3_model_dec_ref(c: P, m: P);
    fn Z3_model_eval(c: P, m: P, a: P, compl: bool, out: *mut P) -> bool;
    fn Z3_get_numeral_uint(c: P, a: P, out: *mut c_uint) -> bool;
}
pub struct Z3 {
    c: P,
    sorts: FxMap<u16, P>,
    bv: FxMap<E, P>,   // as bit-vector (width > 1)
    bo: FxMap<E, P>,   // width-1 as Bool
    params: P,
    logic: P,
    pub queries: u64,
    pub time: f64,
    pub unknown: u64,
    pub sat: u64,
    pub unsat: u64,
    pub max_time: f64,
}
pub enum Res { Sat(Vec<(u32, u8)>), Unsat, Unknown }
impl Z3 {
    pub fn new(timeout_ms: u32) -> Z3 {
        unsafe {
            let cfg = Z3_mk_config();
            let k = CString::new("model").unwrap();
            let v = CString::new("true").unwrap();
            Z3_set_param_value(cfg, k.as_ptr(), v.as_ptr());
            let c = Z3_mk_context_rc(cfg);
            let params = Z3_mk_params(c);
            Z3_params_inc_ref(c, params);
            let t = CString::new("timeout").unwrap();
            Z3_params_set_uint(c, params, Z3_mk_string_symbol(c, t.as_ptr()), timeout_ms);
            let l = CString::new("QF_BV").unwrap();
            let logic = Z3_mk_string_symbol(c, l.as_ptr());
            Z3 { c, sorts: Default::default(), bv: Default::default(), bo: Default::default(), params, logic, queries: 0, time: 0.0, unknown: 0, sat: 0, unsat: 0, max_time: 0.0 }
        }
    }
    fn sort(&mut self, w: u16) -> P {
        let c = self.c;
        *self.sorts.entry(w).or_insert_with(|| unsafe { let s = Z3_mk_bv_sort(c, w as c_uint); Z3_inc_ref(c, s); s })
    }
    fn num(&mut self, k: u128, w: u16) -> P {
        let s = CString::new(k.to_string()).unwrap();
        let so = self.sort(w);
        unsafe { Z3_mk_numeral(self.c, s.as_ptr(), so) }
    }
    fn boolean(&mut self, e: E) -> P {
        if let Some(&p) = self.bo.get(&e) { return p; }
        let nd = n(e);
        let c = self.c;
        let p = unsafe {
            match nd.op {
                Op::Const => if nd.k != 0 { Z3_mk_true(c) } else { Z3_mk_false(c) },
                Op::And => { let a = [self.boolean(nd.a), self.boolean(nd.b)]; Z3_mk_and(c, 2, a.as_ptr()) }
                Op::Or => { let a = [self.boolean(nd.a), self.boolean(nd.b)]; Z3_mk_or(c, 2, a.as_ptr()) }
                Op::Xor => { if as_const(nd.b) == Some(1) { let a = self.boolean(nd.a); Z3_mk_not(c, a) } else { let (a, b) = (self.boolean(nd.a), self.boolean(nd.b)); Z3_mk_xor(c, a, b) } }
                Op::Eq => { if width(nd.a) == 1 { let (a, b) = (self.boolean(nd.a), self.boolean(nd.b)); Z3_mk_eq(c, a, b) } else { let (a, b) = (self.term(nd.a), self.term(nd.b)); Z3_mk_eq(c, a, b) } }
                Op::Ult => { let (a, b) = (self.term(nd.a), self.term(nd.b)); Z3_mk_bvult(c, a, b) }
                Op::Slt => { let (a, b) = (self.term(nd.a), self.term(nd.b)); Z3_mk_bvslt(c, a, b) }
                Op::Ite => { let (a, b, d) = (self.boolean(nd.a), self.boolean(nd.b), self.boolean(nd.c)); Z3_mk_ite(c, a, b, d) }
                _ => { let t = self.term(e); let one = self.num(1, 1); Z3_mk_eq(c, t, one) }
            }
        };
        unsafe { Z3_inc_ref(c, p) };
        self.bo.insert(e, p);
        p
    }
    fn term(&mut self, e: E) -> P {
        if let Some(&p) = self.bv.get(&e) { return p; }
        let nd = n(e);
        let c = self.c;
        let p = unsafe {
            match nd.op {
                Op::Const => self.num(nd.k, nd.w),
                Op::Var => { let s = CString::new(format!("v{}", nd.k)).unwrap(); let so = self.sort(nd.w); Z3_mk_const(c, Z3_mk_string_symbol(c, s.as_ptr()), so) }
                Op::Eq | Op::Ult | Op::Slt => { let b = self.boolean(e); let (o, z) = (self.num(1, 1), self.num(0, 1)); Z3_mk_ite(c, b, o, z) }
                Op::Wide => self.term(nd.b),
                Op::Ite => { let (a, b, d) = (self.boolean(nd.a), self.term(nd.b), self.term(nd.c)); Z3_mk_ite(c, a, b, d) }
                Op::Extract => { let a = self.term(nd.a); Z3_mk_extract(c, nd.k as c_uint + nd.w as c_uint - 1, nd.k as c_uint, a) }
                Op::SExt => { let a = self.term(nd.a); Z3_mk_sign_ext(c, (nd.w - width(nd.a)) as c_uint, a) }
                _ => {
                    let (a, b) = (self.term(nd.a), self.term(nd.b));
                    match nd.op {
                        Op::Add => Z3_mk_bvadd(c, a, b), Op::Sub => Z3_mk_bvsub(c, a, b), Op::Mul => Z3_mk_bvmul(c, a, b),
                        Op::UDiv => Z3_mk_bvudiv(c, a, b), Op::SDiv => Z3_mk_bvsdiv(c, a, b), Op::URem => Z3_mk_bvurem(c, a, b), Op::SRem => Z3_mk_bvsrem(c, a, b),
                        Op::And => Z3_mk_bvand(c, a, b), Op::Or => Z3_mk_bvor(c, a, b), Op::Xor => Z3_mk_bvxor(c, a, b),
                        Op::Shl => Z3_mk_bvshl(c, a, b), Op::LShr => Z3_mk_bvlshr(c, a, b), Op::AShr => Z3_mk_bvashr(c, a, b),
                        Op::Concat => Z3_mk_concat(c, a, b),
                        _ => unreachable!(),
                    }
                }
            }
        };
        unsafe { Z3_inc_ref(c, p) };
        self.bv.insert(e, p);
        p
    }
    pub fn check(&mut self, cons: &[E]) -> Res {
        let t0 = std::time::Instant::now();
        self.queries += 1;
        let mut vs: Vec<u64> = vec![];
        for &e in cons { union(&mut vs, &varset(e)); }
        let r = unsafe {
            let c = self.c;
            let s = Z3_mk_solver_for_logic(c, self.logic);
            Z3_solver_inc_ref(c, s);
            Z3_solver_set_params(c, s, self.params);
            for &e in cons { let b = self.boolean(e); Z3_solver_assert(c, s, b); }
            let r = match Z3_solver_check(c, s) {
                1 => {
                    let m = Z3_solver_get_model(c, s);
                    Z3_model_inc_ref(c, m);
                    let mut out = vec![];
                    for (wi, wv) in vs.iter().enumerate() {
                        for bit in 0..64 { if wv >> bit & 1 == 1 {
                            let id = (wi * 64 + bit) as u32;
                            let ve = var_expr(id);
                            let t = self.term(ve);
                            let mut o: P = std::ptr::null_mut();
                            let mut u: c_uint = 0;
                            if Z3_model_eval(c, m, t, true, &mut o) { Z3_inc_ref(c, o); Z3_get_numeral_uint(c, o, &mut u); }
                            out.push((id, u as u8));
                        } }
                    }
                    Z3_model_dec_ref(c, m);
                    Res::Sat(out)
                }
                -1 => Res::Unsat,
                _ => Res::Unknown,
            };
            Z3_solver_dec_ref(c, s);
            r
        };
        let dt = t0.elapsed().as_secs_f64();
        self.time += dt;
        if dt > 0.02 && std::env::var("SYMX_SLOW").is_ok() { eprintln!("SLOW {:.3} sat={}", dt, matches!(r, Res::Sat(_))); for &e in cons { eprintln!("   {}", crate::expr::show(e, 14)); } }
        if dt > self.max_time { self.max_time = dt; }
        match r { Res::Sat(_) => self.sat += 1, Res::Unsat => self.unsat += 1, Res::Unknown => self.unknown += 1 }
        r
    }
}
fn var_expr(id: u32) -> E { crate::expr::var(id) }
