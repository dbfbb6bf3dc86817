//! Symbolic executor over decoded LLVM IR.
use crate::expr::*;
use crate::ir::*;
use crate::val::*;
use crate::z3::{Res, Z3};
use std::rc::Rc;
use std::time::Instant;

#[derive(Clone)]
pub struct Obj { pub data: Vec<u8>, pub sym: Option<Vec<E>>, pub size: u64 }
impl Obj {
    fn new(size: u64) -> Obj { Obj { data: vec![0; if size <= 4096 { size as usize } else { 0 }], sym: None, size } }
    fn grow(&mut self, n: usize) { if self.data.len() < n { let k = n.max((self.data.len() * 2).min(self.size as usize)); self.data.resize(k, 0); } if let Some(s) = &mut self.sym { s.resize(self.data.len(), 0) } }
}
#[derive(Clone)]
pub struct Frame { pub f: &'static Func, pub blk: u32, pub pc: u32, pub regs: Vec<Val>, pub allocas: Vec<u32>, pub dst: u32, pub normal: u32 }
pub struct Group { pub vars: Vec<u64>, pub cons: Vec<E> }
#[derive(Clone, Copy)]
pub enum InB { Var(u32), Byte(u8) }
#[derive(Clone)]
pub struct VFile { pub path: Vec<u8>, pub data: Vec<Val>, pub dir: bool }
#[derive(Clone, Default)]
pub struct Fs { pub files: Vec<VFile>, pub fds: Vec<Option<(usize, usize)>>, pub log: Vec<Vec<u8>> }
#[derive(Clone)]
pub struct State {
    pub frames: Vec<Rc<Frame>>,
    pub cur: Frame,
    pub heap: Vec<Option<Rc<Obj>>>,
    pub free: Vec<u32>,
    pub gmut: FxMap<u32, Rc<Obj>>,
    pub groups: Vec<Rc<Group>>,
    pub model: Rc<Model>,
    pub known: Rc<FxMap<u32, u8>>,
    pub kset: Rc<Vec<u64>>,
    pub bounds: Rc<FxMap<E, (u128, u128)>>,
    pub inputs: Vec<InB>,
    pub nvars: u32,
    pub obs: Vec<(u32, Val)>,
    pub choices: Vec<u64>,
    pub reach: Vec<u32>,
    pub steps: u64,
    pub depth: u32,
    pub zs: Vec<(u64, u64)>,
    pub opts: [u64; 8],
    pub reads: Rc<Vec<u8>>,
    /// bytes of large constant tables at symbolic positions (one unconstrained variable per address expression)
    pub uf: Rc<FxMap<E, E>>,
    /// results of the third-party CityHash64 on symbolic data: (bytes, 64-bit unconstrained value)
    pub city: Rc<Vec<(Vec<E>, E)>>,
}
#[derive(Debug, Clone)]
pub enum End { Done, Assume, Panic(String), Check(u32), Alloc(u64, String), Memory(String), Unsupported(String), Limit(String), Abort(String), Split(u64) }
pub enum Stop { End(End), Retry }
type R<T2> = Result<T2, Stop>;

pub struct Violation { pub kind: String, pub key: String, pub input: Vec<u8>, pub trace: Vec<String>, pub choices: Vec<u64> }
pub struct Stats { pub paths: u64, pub ends: FxMap<String, u64>, pub steps: u64, pub forks: u64, pub cache_hits: u64, pub model_hits: u64, pub incomplete: Vec<String>, pub max_pc: usize, pub checks: u64, pub reach: FxMap<u32, u64> }
pub struct Sample { pub input: Vec<u8>, pub obs: Vec<(u32, u64)>, pub end: String }

#[derive(Clone, Copy, PartialEq, Debug)]
enum Bi { None, InitFn, Sha1, City, ZVersion, GetRandom, Unset, SymBytes, SymAssume, SymCheck, SymChoice, SymObserve, SymReach, SymOpt, SymConcrete, PanicFmt, NounwindFmt, Print, FormatInner, RAlloc, RAllocZ, RRealloc, RDealloc,
    Malloc, Calloc, Realloc, Memalign, Free, Memcpy, Memset, Memcmp, Strlen, Abort, Zero, MinusOne, Errno, Write, Syscall, Cxa,
    IUMax, IUMin, ISMax, ISMin, IUAddSat, IUSubSat, ISAddSat, ISSubSat, IUAddO, IUSubO, IUMulO, ISAddO, ISSubO, ISMulO, ICtlz, ICttz, ICtpop, IBswap, IBitrev, IFshl, IFshr, IAbs, IIsConst, IExpect, IUCmp, ISCmp, ITls, ITrap, IFabs, IFpSat, ICopysign, IFloor, ICeil, ITrunc, IRound, ISqrt, IRed, IFma, IMinnum, IMaxnum, ISsaCopy,
    DInit, DRun, DEnd, IInit, IRun, IEnd, ZReset, Wr, ObjSize, HashFinish, Exit }

pub struct Engine {
    pub m: &'static Module,
    pub z3: Z3,
    pub gconst: Vec<Option<Rc<Obj>>>,
    bi: Vec<Bi>,
    pub work: Vec<State>,
    pub st: Stats,
    pub viol: Vec<Violation>,
    vkeys: std::collections::HashMap<String, u32>,
    cache: FxMap<Vec<E>, Option<Rc<Vec<(u32, u8)>>>>,
    recent: Vec<Rc<Model>>,
    lin: crate::lin::Lin,
    pub deadline: Instant,
    pub prefix: Vec<u64>,
    pub split_depth: usize,
    pub split: Option<u64>,
    pub alloc_limit: u64,
    pub max_steps: u64,
    pub max_frames: usize,
    pub samples: Vec<Sample>,
    pub max_samples: usize,
    pub trace: bool,
    pub errno: u64,
}
const HEAP0: u64 = 0x10_0000; // heap object index base
fn known_norm(k: &str) -> &str { k }

impl Engine {
    pub fn new(m: &'static Module, timeout_ms: u32) -> Engine {
        let n = m.fns.len();
        assert!(m.globals.len() as u64 + G_BASE < HEAP0);
        Engine { m, z3: Z3::new(timeout_ms), gconst: vec![None; m.globals.len()], bi: vec![Bi::Unset; n], work: vec![],
            st: Stats { paths: 0, ends: Default::default(), steps: 0, forks: 0, cache_hits: 0, model_hits: 0, incomplete: vec![], max_pc: 0, checks: 0, reach: Default::default() },
            viol: vec![], vkeys: Default::default(), cache: Default::default(), recent: vec![], lin: Default::default(), deadline: Instant::now() + std::time::Duration::from_secs(600), prefix: vec![], split_depth: 0, split: None,
            alloc_limit: 1 << 30, max_steps: 2_000_000_000, max_frames: 5000, samples: vec![], max_samples: 0, trace: false, errno: 0 }
    }
    pub fn start(&mut self, entry: &str) -> bool {
        let Some(&f) = self.m.fidx.get(entry) else { return false };
        let Some(f) = self.m.func(f) else { return false };
        let cur = Frame { f, blk: 0, pc: 0, regs: vec![Val::C(0); f.nregs as usize], allocas: vec![], dst: NONE, normal: NONE };
        f.blocks[0].hit.set(true);
        self.work.push(State { frames: vec![], cur, heap: vec![], free: vec![], gmut: Default::default(), groups: vec![], model: Model::new(vec![]), known: Default::default(), kset: Default::default(), bounds: Default::default(), inputs: vec![], nvars: 0, obs: vec![], choices: vec![], reach: vec![], steps: 0, depth: 0, zs: vec![], opts: [0; 8], reads: Default::default(), uf: Default::default(), city: Default::default() });
        true
    }
    pub fn run(&mut self) {
        while let Some(st) = self.work.pop() {
            if self.split.is_some() { break; }
            if Instant::now() > self.deadline { self.incomplete("time limit".into()); break; }
            self.run_path(st);
        }
    }
    fn incomplete(&mut self, s: String) { if self.st.incomplete.len() < 20 && !self.st.incomplete.contains(&s) { self.st.incomplete.push(s) } }
    fn run_path(&mut self, mut s: State) {
        let end = loop {
            match self.step_block(&mut s) {
                Ok(()) => {}
                Err(Stop::Retry) => {}
                Err(Stop::End(e)) => break e,
            }
            if s.steps > self.max_steps { break End::Limit("instruction limit on one path".into()); }
        };
        self.st.steps += s.steps;
        if let End::Split(n) = end { self.split = Some(n); return; }
        self.st.paths += 1;
        for r in &s.reach { *self.st.reach.entry(*r).or_insert(0) += 1; }
        let np: usize = s.groups.iter().map(|g| g.cons.len()).sum();
        self.st.max_pc = self.st.max_pc.max(np);
        let name = match &end { End::Done => "done", End::Assume => "assume", End::Panic(_) => "panic", End::Check(_) => "check", End::Alloc(..) => "alloc", End::Memory(_) => "memory", End::Unsupported(_) => "unsupported", End::Limit(_) => "limit", End::Abort(_) => "abort", End::Split(_) => "" };
        *self.st.ends.entry(name.to_string()).or_insert(0) += 1;
        let (kind, key) = match &end {
            End::Done => { self.sample(&s, "done"); return }
            End::Assume => return,
            End::Panic(l) => ("panic", l.clone()),
            End::Check(i) => ("check", i.to_string()),
            End::Alloc(n, l) => { let _ = n; ("alloc", l.clone()) }
            End::Memory(x) => ("memory", x.clone()),
            End::Abort(x) => ("abort", x.clone()),
            End::Unsupported(x) => { let t = self.traceback(&s); let msg = format!("unsupported: {} at {}", x, t.iter().take(6).cloned().collect::<Vec<_>>().join(" < ")); self.incomplete(msg); return }
            End::Limit(x) => { let x = x.clone(); let t = self.traceback(&s); self.incomplete(format!("{} at {}", x, t.first().cloned().unwrap_or_default())); return }
            End::Split(_) => unreachable!(),
        };
        let full = format!("{}:{}", kind, known_norm(&key));
        let nth = self.vkeys.entry(full).or_insert(0);
        *nth += 1;
        // a few instances of each, the first with a second witness whose unconstrained bytes are arbitrary instead of zero
        if nth.is_power_of_two() && *nth <= 8 {
            let first = *nth == 1;
            let input = self.input_of(&s);
            let trace = self.traceback(&s);
            let alt = { let free = |v: u32| !s.known.contains_key(&v) && !s.groups.iter().any(|g| g.vars.get(v as usize / 64).is_some_and(|w| w >> (v % 64) & 1 == 1));
                let mut n = 0u64;
                s.inputs.iter().zip(&input).map(|(b, x)| { n += 1; match b { InB::Var(v) if free(*v) => (n.wrapping_mul(0x9E3779B97F4A7C15) >> 29) as u8, _ => *x } }).collect::<Vec<u8>>() };
            if first && alt != input { self.viol.push(Violation { kind: kind.into(), key: key.clone(), input: alt, trace: trace.clone(), choices: s.choices.clone() }) }
            self.viol.push(Violation { kind: kind.into(), key, input, trace, choices: s.choices.clone() });
        }
    }
    fn input_of(&self, s: &State) -> Vec<u8> { s.inputs.iter().map(|b| match b { InB::Var(v) => s.model.v.get(*v as usize).copied().unwrap_or(0), InB::Byte(x) => *x }).collect() }
    fn sample(&mut self, s: &State, end: &str) {
        // keep a spread of paths: reservoir by powers
        if self.max_samples == 0 { return; }
        let k = self.st.paths;
        let keep = self.samples.len() < self.max_samples;
        let slot = if keep { self.samples.len() } else { let h = (k.wrapping_mul(0x9E3779B97F4A7C15) >> 33) % k.max(1); if (h as usize) < self.max_samples { h as usize } else { return } };
        let obs = s.obs.iter().map(|(t, v)| (*t, match v { Val::C(x) => *x, Val::E(e) => s.model.eval(*e) as u64, _ => 0 })).collect();
        let sm = Sample { input: self.input_of(s), obs, end: end.into() };
        if keep { self.samples.push(sm) } else { self.samples[slot] = sm }
    }
    pub fn loc(&self, f: &'static Func, blk: u32, pc: u32) -> String {
        let b = &f.blocks[blk as usize];
        let d = b.dbg.get(pc as usize).copied().unwrap_or(0);
        let mut out = vec![];
        let mut cur = d;
        for _ in 0..12 {
            if cur == 0 { break; }
            let Some((l, nm, file, next)) = crate::dbg::locate(self.m, cur) else { break };
            out.push(format!("{} {}:{}", nm, file, l));
            cur = next;
        }
        if out.is_empty() { f.name.to_string() } else { out.join(" @ ") }
    }
    pub fn traceback(&self, s: &State) -> Vec<String> {
        let mut v = vec![self.loc(s.cur.f, s.cur.blk, s.cur.pc)];
        for f in s.frames.iter().rev().take(40) { v.push(self.loc(f.f, f.blk, f.pc.saturating_sub(1))); }
        v
    }
    /// innermost /repo (or harness) location
    pub fn repo_loc(&self, s: &State) -> String {
        for t in self.traceback(s) { for part in t.split(" @ ") { if part.contains("/repo/") { return part.to_string(); } } }
        "?".into()
    }

    // ---------- constraints ----------
    fn add_con(&mut self, s: &mut State, c: E) {
        if as_const(c) == Some(1) { return; }
        let nd = n(c);
        if nd.op == Op::And { self.add_con(s, nd.a); self.add_con(s, nd.b); return; }
        if nd.op == Op::Eq { if let Some(k) = as_const(nd.b) { Self::learn(s, nd.a, k); Self::bound(s, nd.a, k, k); } else if let Some(k) = as_const(nd.a) { Self::learn(s, nd.b, k); Self::bound(s, nd.b, k, k); } }
        if nd.op == Op::Ult { if let Some(k) = as_const(nd.b) { Self::bound(s, nd.a, 0, k.wrapping_sub(1)); } else if let Some(k) = as_const(nd.a) { Self::bound(s, nd.b, k + 1, u128::MAX); } }
        if nd.op == Op::Xor && as_const(nd.b) == Some(1) { let i = n(nd.a); if i.op == Op::Ult { if let Some(k) = as_const(i.b) { Self::bound(s, i.a, k, u128::MAX); } else if let Some(k) = as_const(i.a) { Self::bound(s, i.b, 0, k); } } else if i.op == Op::Or { self.add_con(s, not(i.a)); self.add_con(s, not(i.b)); return; } }
        let vs = varset(c);
        let mut vars = (*vs).clone();
        let mut cons = vec![];
        let mut i = 0;
        while i < s.groups.len() {
            if intersects(&s.groups[i].vars, &vs) { let g = s.groups.swap_remove(i); union(&mut vars, &g.vars); cons.extend_from_slice(&g.cons); } else { i += 1 }
        }
        if !cons.contains(&c) { cons.push(c); }
        s.groups.push(Rc::new(Group { vars, cons }));
    }
    /// record the bytes fixed by e == k
    fn learn(s: &mut State, e: E, k: u128) {
        let nd = n(e);
        match nd.op {
            Op::Var => { Rc::make_mut(&mut s.known).insert(nd.k as u32, k as u8); let i = nd.k as usize; let ks = Rc::make_mut(&mut s.kset); if ks.len() <= i / 64 { ks.resize(i / 64 + 1, 0) } ks[i / 64] |= 1 << (i % 64); }
            Op::Concat => { let lw = width(nd.b); Self::learn(s, nd.b, k & mask(lw)); Self::learn(s, nd.a, k >> lw); }
            _ => {}
        }
    }
    fn bound(s: &mut State, e: E, lo: u128, hi: u128) {
        let nd = n(e);
        if nd.op == Op::Var && lo != hi { return; }
        let r = range(e);
        let (mut l, mut h) = s.bounds.get(&e).copied().unwrap_or(r);
        l = l.max(lo); h = h.min(hi);
        if l > h { return; }
        Rc::make_mut(&mut s.bounds).insert(e, (l, h));
        if nd.op == Op::Concat { let lw = width(nd.b); if h >> lw == 0 { Self::learn(s, nd.a, 0); Self::bound(s, nd.a, 0, 0); Self::bound(s, nd.b, l, h); } }
    }
    /// interval of e under the path condition (cheap, incomplete)
    fn rng(s: &State, e: E, d: u32) -> (u128, u128) {
        let nd = n(e);
        if nd.op == Op::Const { return (nd.k, nd.k); }
        if nd.op == Op::Var { return s.known.get(&(nd.k as u32)).map_or((0, 255), |&k| (k as u128, k as u128)); }
        let (mut l, mut h) = range(e);
        if let Some(b) = s.bounds.get(&e) { l = l.max(b.0); h = h.min(b.1); }
        if d == 0 || l >= h { return (l, h); }
        let m = mask(nd.w);
        let (l2, h2) = match nd.op {
            Op::Add => {
                let (a, b) = (Self::rng(s, nd.a, d - 1), Self::rng(s, nd.b, d - 1));
                match (a.1.checked_add(b.1), a.0.checked_add(b.0)) { (Some(x), Some(y)) if x <= m => (y, x), (Some(x), Some(y)) if y > m && x <= m.wrapping_mul(2) + 1 => (y - m - 1, x - m - 1), _ => return (l, h) }
            }
            Op::Sub => { let (a, b) = (Self::rng(s, nd.a, d - 1), Self::rng(s, nd.b, d - 1)); if a.0 >= b.1 { (a.0 - b.1, a.1 - b.0) } else { return (l, h) } }
            Op::Concat => { let (a, b) = (Self::rng(s, nd.a, d - 1), Self::rng(s, nd.b, d - 1)); let lw = width(nd.b); ((a.0 << lw) | b.0, (a.1 << lw) | b.1) }
            Op::Extract if nd.k == 0 => { let a = Self::rng(s, nd.a, d - 1); if a.1 <= m { a } else { return (l, h) } }
            Op::Ite => { match Self::quick(s, nd.a, d - 1) { Some(true) => Self::rng(s, nd.b, d - 1), Some(false) => Self::rng(s, nd.c, d - 1), None => { let (a, b) = (Self::rng(s, nd.b, d - 1), Self::rng(s, nd.c, d - 1)); (a.0.min(b.0), a.1.max(b.1)) } } }
            _ => return (l, h),
        };
        (l.max(l2), h.min(h2))
    }
    fn quick(s: &State, c: E, d: u32) -> Option<bool> {
        let nd = n(c);
        match nd.op {
            Op::Const => Some(nd.k != 0),
            Op::Ult => { let (a, b) = (Self::rng(s, nd.a, d), Self::rng(s, nd.b, d)); if a.1 < b.0 { Some(true) } else if a.0 >= b.1 { Some(false) } else { None } }
            Op::Eq => { let (a, b) = (Self::rng(s, nd.a, d), Self::rng(s, nd.b, d)); if a.1 < b.0 || b.1 < a.0 { Some(false) } else if a.0 == a.1 && b.0 == b.1 && a.0 == b.0 { Some(true) } else { None } }
            Op::Xor if as_const(nd.b) == Some(1) => Self::quick(s, nd.a, d).map(|x| !x),
            Op::And if nd.w == 1 && d > 0 => match (Self::quick(s, nd.a, d - 1), Self::quick(s, nd.b, d - 1)) { (Some(false), _) | (_, Some(false)) => Some(false), (Some(true), Some(true)) => Some(true), _ => None },
            Op::Or if nd.w == 1 && d > 0 => match (Self::quick(s, nd.a, d - 1), Self::quick(s, nd.b, d - 1)) { (Some(true), _) | (_, Some(true)) => Some(true), (Some(false), Some(false)) => Some(false), _ => None },
            _ => None,
        }
    }
    /// every variable of e has a fixed value
    fn fixed(s: &State, e: E) -> bool {
        if s.kset.is_empty() { return false; }
        let v = varset(e);
        v.iter().enumerate().all(|(i, w)| w & !s.kset.get(i).copied().unwrap_or(0) == 0)
    }
    /// is pc && c satisfiable?  Some(model assignment) / None
    fn query(&mut self, s: &State, c: E) -> Result<Option<Rc<Vec<(u32, u8)>>>, ()> {
        let c = self.lin.simplify(c);
        match as_const(c) { Some(0) => return Ok(None), Some(_) => return Ok(Some(Rc::new(vec![]))), _ => {} }
        if Self::quick(s, c, 6) == Some(false) { self.st.cache_hits += 1; return Ok(None); }
        let vs = varset(c);
        let mut key: Vec<E> = vec![];
        let mut allv = (*vs).clone();
        for g in &s.groups { if intersects(&g.vars, &vs) { key.extend_from_slice(&g.cons); union(&mut allv, &g.vars); } }
        key.sort_unstable();
        key.push(c);
        if let Some(r) = self.cache.get(&key) { self.st.cache_hits += 1; return Ok(r.clone()); }
        // recent models
        for k in (0..self.recent.len()).rev() {
            let m = self.recent[k].clone();
            if m.eval(c) != 0 && key.iter().all(|&e| m.eval(e) != 0) {
                self.st.model_hits += 1;
                let mut out = vec![];
                for (wi, wv) in allv.iter().enumerate() { for b in 0..64 { if wv >> b & 1 == 1 { let id = (wi * 64 + b) as u32; out.push((id, m.v.get(id as usize).copied().unwrap_or(0))) } } }
                let r = Some(Rc::new(out));
                self.cache.insert(key, r.clone());
                return Ok(r);
            }
        }
        if std::env::var_os("SYMX_PROF").is_some() { eprintln!("Q {}", self.loc(s.cur.f, s.cur.blk, s.cur.pc)) }
        let r = match self.z3.check(&key) {
            Res::Sat(v) => {
                let r = Some(Rc::new(v));
                r
            }
            Res::Unsat => None,
            Res::Unknown => return Err(()),
        };
        if let Some(v) = &r {
            let mut nv = s.model.v.clone();
            for (i, b) in v.iter() { if nv.len() <= *i as usize { nv.resize(*i as usize + 1, 0) } nv[*i as usize] = *b; }
            let m = Model::new(nv);
            debug_assert!(key.iter().all(|&e| m.eval(e) != 0));
            if self.recent.len() >= 8 { self.recent.remove(0); }
            self.recent.push(m);
        }
        self.cache.insert(key, r.clone());
        Ok(r)
    }
    fn with_model(s: &State, v: &[(u32, u8)]) -> Rc<Model> {
        if v.iter().all(|(i, b)| s.model.v.get(*i as usize).copied().unwrap_or(0) == *b) { return s.model.clone(); }
        let mut nv = s.model.v.clone();
        for (i, b) in v { if nv.len() <= *i as usize { nv.resize(*i as usize + 1, 0) } nv[*i as usize] = *b; }
        Model::new(nv)
    }
    /// fork the state (unchanged pc position) with constraint c if feasible
    fn fork_with(&mut self, s: &State, c: E) -> Option<State> {
        match self.query(s, c) {
            Ok(Some(v)) => {
                let mut t = s.clone();
                t.model = Self::with_model(s, &v);
                self.add_con(&mut t, c);
                self.st.forks += 1;
                t.depth += 1;
                Some(t)
            }
            Ok(None) => None,
            Err(()) => { self.incomplete(format!("solver timeout at {}", self.loc(s.cur.f, s.cur.blk, s.cur.pc))); None }
        }
    }
    /// decide a condition: forks the other side (retrying the same instruction there)
    fn decide(&mut self, s: &mut State, c: E) -> R<bool> {
        if let Some(k) = as_const(c) { return Ok(k != 0); }
        let v = s.model.eval(c) != 0;
        if Self::fixed(s, c) { return Ok(v); }
        let (mine, other) = if v { (c, not(c)) } else { (not(c), c) };
        if let Some(t) = self.fork_with(s, other) { self.work.push(t); self.add_con(s, mine); }
        Ok(v)
    }
    pub fn concretize(&mut self, s: &mut State, e: E) -> R<u128> {
        if let Some(k) = as_const(e) { return Ok(k); }
        let v = s.model.eval(e);
        if Self::fixed(s, e) { return Ok(v); }
        let c = eq(e, konst(v, width(e)));
        if let Some(t) = self.fork_with(s, not(c)) { self.work.push(t); self.add_con(s, c); }
        Ok(v)
    }
    fn cv(&mut self, s: &mut State, v: &Val) -> R<u64> { match v { Val::C(x) => Ok(*x), Val::E(e) => Ok(self.concretize(s, *e)? as u64), _ => panic!() } }

    // ---------- memory ----------
    fn unsupported<T2>(&self, x: impl Into<String>) -> R<T2> { Err(Stop::End(End::Unsupported(x.into()))) }
    fn obj(&mut self, s: &State, addr: u64) -> Option<(Rc<Obj>, u64)> {
        let idx = addr >> 32; let off = addr & 0xffff_ffff;
        if idx >= HEAP0 { return s.heap.get((idx - HEAP0) as usize)?.clone().map(|o| (o, off)); }
        if idx >= G_BASE {
            let g = (idx - G_BASE) as u32;
            if g as usize >= self.gconst.len() { return None; }
            if let Some(o) = s.gmut.get(&g) { return Some((o.clone(), off)); }
            return Some((self.gobj(g), off));
        }
        None
    }
    fn gobj(&mut self, g: u32) -> Rc<Obj> {
        if let Some(o) = &self.gconst[g as usize] { return o.clone(); }
        let d = self.m.global_init(g);
        let o = Rc::new(Obj { size: d.len() as u64, data: d, sym: None });
        self.gconst[g as usize] = Some(o.clone());
        o
    }
    fn obj_ref<'a>(&'a mut self, s: &'a State, addr: u64) -> Option<(&'a Obj, u64)> {
        let idx = addr >> 32; let off = addr & 0xffff_ffff;
        if idx >= HEAP0 { return s.heap.get((idx - HEAP0) as usize)?.as_deref().map(|o| (o, off)); }
        if idx >= G_BASE {
            let g = (idx - G_BASE) as u32;
            if g as usize >= self.gconst.len() { return None; }
            if let Some(o) = s.gmut.get(&g) { return Some((o, off)); }
            if self.gconst[g as usize].is_none() { self.gobj(g); }
            return Some((self.gconst[g as usize].as_deref().unwrap(), off));
        }
        None
    }
    fn obj_mut<'a>(&mut self, s: &'a mut State, addr: u64, n: u64) -> R<(&'a mut Obj, usize)> {
        let idx = addr >> 32; let off = addr & 0xffff_ffff;
        let rc = if idx >= HEAP0 {
            match s.heap.get_mut((idx - HEAP0) as usize) { Some(Some(o)) => o, _ => return Err(Stop::End(End::Memory(format!("write to freed or invalid object {:#x}", addr)))) }
        } else if idx >= G_BASE && ((idx - G_BASE) as usize) < self.gconst.len() {
            let g = (idx - G_BASE) as u32;
            if self.m.globals[g as usize].konst { return Err(Stop::End(End::Memory("write to constant".into()))); }
            if !s.gmut.contains_key(&g) { let o = self.gobj(g); s.gmut.insert(g, o); }
            s.gmut.get_mut(&g).unwrap()
        } else { return Err(Stop::End(End::Memory(format!("write to invalid address {:#x}", addr)))) };
        let o = Rc::make_mut(rc);
        if off + n > o.size { return Err(Stop::End(End::Memory(format!("out of bounds write at {:#x}+{} of {}", addr, n, o.size)))); }
        o.grow((off + n) as usize);
        Ok((o, off as usize))
    }
    fn read_byte(o: &Obj, i: usize, known: &FxMap<u32, u8>) -> Val {
        if let Some(sy) = &o.sym { let e = sy.get(i).copied().unwrap_or(0); if e != 0 {
            let nd = n(e);
            if nd.op == Op::Var { if let Some(k) = known.get(&(nd.k as u32)) { return Val::C(*k as u64); } }
            return Val::E(e);
        } }
        Val::C(o.data.get(i).copied().unwrap_or(0) as u64)
    }
    fn read_scalar(&mut self, s: &State, addr: u64, bits: u16) -> R<Val> {
        let nb = (bits as usize + 7) / 8;
        let known = s.known.clone();
        let Some((o, off)) = self.obj_ref(s, addr) else { return Err(Stop::End(End::Memory(format!("read from invalid address {:#x}", addr)))) };
        if off + nb as u64 > o.size { return Err(Stop::End(End::Memory(format!("out of bounds read at {:#x}+{} of {}", addr, nb, o.size)))); }
        let off = off as usize;
        if o.sym.is_none() || (0..nb).all(|i| o.sym.as_ref().unwrap().get(off + i).copied().unwrap_or(0) == 0) {
            let mut b = [0u8; 16];
            for i in 0..nb { b[i] = o.data.get(off + i).copied().unwrap_or(0) }
            let v = u128::from_le_bytes(b) & mask(bits);
            return Ok(if bits > 64 { Val::E(konst(v, bits)) } else { Val::C(v as u64) });
        }
        let mut acc: Option<E> = None;
        for i in (0..nb).rev() {
            let b = Self::read_byte(o, off + i, &known).e(8);
            acc = Some(match acc { None => b, Some(h) => concat(h, b) });
        }
        let mut e = acc.unwrap();
        if bits % 8 != 0 { e = extract(e, 0, bits); }
        Ok(Val::of(e))
    }
    fn load_ty(&mut self, s: &State, addr: u64, t: &Ty) -> R<Val> {
        match t {
            Ty::Vec(n, et) if et.bits() % 8 != 0 => {
                let whole = self.read_scalar(s, addr, *n as u16 * et.bits())?; let w = *n as u16 * et.bits(); let e = whole.e(w);
                Ok(Val::Agg(Rc::new((0..*n as u16).map(|i| Val::of(extract(e, i * et.bits(), et.bits()))).collect())))
            }
            t if t.is_agg() => { let mut v = vec![]; for i in 0..t.nfields() { let (o, ft) = t.field(i); v.push(self.load_ty(s, addr + o, &ft)?) } Ok(Val::Agg(Rc::new(v))) }
            t => self.read_scalar(s, addr, t.bits()),
        }
    }
    fn write_scalar(&mut self, s: &mut State, addr: u64, bits: u16, v: &Val) -> R<()> {
        let nb = (bits as usize + 7) / 8;
        let (o, off) = self.obj_mut(s, addr, nb as u64)?;
        match v.k() {
            Some(k) => { let b = k.to_le_bytes(); o.data[off..off + nb].copy_from_slice(&b[..nb]); if let Some(sy) = &mut o.sym { for x in &mut sy[off..off + nb] { *x = 0 } } }
            None => {
                let mut e = v.e(bits);
                if bits % 8 != 0 { e = zext(e, nb as u16 * 8); }
                let len = o.data.len();
                let sy = o.sym.get_or_insert_with(|| vec![0; len]);
                for i in 0..nb { let b = extract(e, i as u16 * 8, 8); match as_const(b) { Some(k) => { o.data[off + i] = k as u8; sy[off + i] = 0 } None => sy[off + i] = b } }
            }
        }
        Ok(())
    }
    fn store_ty(&mut self, s: &mut State, addr: u64, t: &Ty, v: &Val) -> R<()> {
        match t {
            Ty::Vec(_, et) if et.bits() % 8 != 0 => { let (e, w) = self.flatten(t, v); self.write_scalar(s, addr, w, &Val::of(e)) }
            t if t.is_agg() => { let Val::Agg(a) = v else { panic!() }; for (i, x) in a.iter().enumerate() { let (o, ft) = t.field(i as u64); self.store_ty(s, addr + o, &ft, x)? } Ok(()) }
            t => self.write_scalar(s, addr, t.bits(), v),
        }
    }
    fn flatten(&self, t: &Ty, v: &Val) -> (E, u16) {
        match (t, v) {
            (Ty::Vec(_, et), Val::Agg(a)) => {
                let w = et.bits(); let mut acc: Option<E> = None;
                for x in a.iter().rev() { let b = x.e(w); acc = Some(match acc { None => b, Some(h) => concat(h, b) }); }
                (acc.unwrap(), w * a.len() as u16)
            }
            _ => (v.e(t.bits()), t.bits()),
        }
    }
    pub fn alloc(&mut self, s: &mut State, size: u64) -> u64 {
        let o = Rc::new(Obj::new(size));
        let i = if let Some(i) = s.free.pop() { s.heap[i as usize] = Some(o); i } else { s.heap.push(Some(o)); s.heap.len() as u32 - 1 };
        (HEAP0 + i as u64) << 32
    }
    fn dealloc(&mut self, s: &mut State, addr: u64) -> R<()> {
        if addr == 0 { return Ok(()); }
        let idx = addr >> 32;
        if idx < HEAP0 || addr & 0xffff_ffff != 0 { return Err(Stop::End(End::Memory(format!("free of invalid address {:#x}", addr)))); }
        let i = (idx - HEAP0) as usize;
        if s.heap.get(i).map_or(true, |o| o.is_none()) { return Err(Stop::End(End::Memory("double free".into()))); }
        s.heap[i] = None; s.free.push(i as u32);
        Ok(())
    }
    /// allocation with possibly symbolic size
    fn alloc_v(&mut self, s: &mut State, size: &Val) -> R<u64> {
        let n = self.alloc_size(s, size)?;
        Ok(self.alloc(s, n))
    }
    fn alloc_size(&mut self, s: &mut State, size: &Val) -> R<u64> {
        let lim = self.alloc_limit;
        match size {
            Val::C(x) => { if *x > lim { let l = self.repo_loc(s); return Err(Stop::End(End::Alloc(*x, l))); } Ok(*x) }
            Val::E(e) => {
                let big = ult(konst(lim as u128, 64), *e);
                if self.decide(s, big)? { let x = s.model.eval(*e) as u64; let l = self.repo_loc(s); return Err(Stop::End(End::Alloc(x, l))); }
                Ok((range(*e).1 as u64).min(lim))
            }
            _ => panic!(),
        }
    }
    fn copy(&mut self, s: &mut State, dst: u64, src: u64, n: u64) -> R<()> {
        if n == 0 { return Ok(()); }
        let Some((so, soff)) = self.obj(s, src) else { return Err(Stop::End(End::Memory(format!("memcpy from invalid address {:#x}", src)))) };
        if soff + n > so.size { return Err(Stop::End(End::Memory(format!("memcpy out of bounds read {}+{} of {}", soff, n, so.size)))); }
        let soff = soff as usize; let nn = n as usize;
        let avail = so.data.len().saturating_sub(soff).min(nn);
        let tmp: Vec<u8> = so.data[soff.min(so.data.len())..soff.min(so.data.len()) + avail].to_vec();
        let tsym: Option<Vec<E>> = so.sym.as_ref().and_then(|sy| { let a = soff.min(sy.len()); let b = (soff + nn).min(sy.len()); let v = sy[a..b].to_vec(); if v.iter().all(|x| *x == 0) { None } else { Some(v) } });
        drop(so);
        let (o, off) = self.obj_mut(s, dst, n)?;
        o.data[off..off + avail].copy_from_slice(&tmp);
        for b in &mut o.data[off + avail..off + nn] { *b = 0 }
        if let Some(t) = tsym {
            let len = o.data.len();
            let sy = o.sym.get_or_insert_with(|| vec![0; len]);
            sy[off..off + t.len()].copy_from_slice(&t);
            for x in &mut sy[off + t.len()..off + nn] { *x = 0 }
        } else if let Some(sy) = &mut o.sym { for x in &mut sy[off..off + nn] { *x = 0 } }
        Ok(())
    }
    pub fn read_bytes(&mut self, s: &State, addr: u64, n: u64) -> R<Vec<Val>> {
        if n == 0 { return Ok(vec![]); }
        let known = s.known.clone();
        let Some((o, off)) = self.obj_ref(s, addr) else { return Err(Stop::End(End::Memory(format!("read from invalid address {:#x}", addr)))) };
        if off + n > o.size { return Err(Stop::End(End::Memory("out of bounds read".into()))); }
        Ok((0..n as usize).map(|i| Self::read_byte(o, off as usize + i, &known)).collect())
    }
    pub fn write_bytes(&mut self, s: &mut State, addr: u64, v: &[Val]) -> R<()> {
        for (i, b) in v.iter().enumerate() { self.write_scalar(s, addr + i as u64, 8, b)?; }
        Ok(())
    }
    fn cstr(&mut self, s: &State, addr: u64) -> R<Vec<u8>> {
        let mut v = vec![];
        loop { match self.read_scalar(s, addr + v.len() as u64, 8)? { Val::C(0) => return Ok(v), Val::C(b) => v.push(b as u8), _ => return self.unsupported("symbolic C string") } }
    }
    /// possible constant values of an expression that is an ite tree
    fn leaves(e: E, out: &mut Vec<u128>, lim: usize) -> bool {
        let nd = n(e);
        match nd.op { Op::Const => { if !out.contains(&nd.k) { out.push(nd.k) } out.len() <= lim } Op::Ite => Self::leaves(nd.b, out, lim) && Self::leaves(nd.c, out, lim), _ => false }
    }
    fn ite_load(&mut self, s: &State, e: E, t: &Ty) -> R<Val> {
        let nd = n(e);
        match nd.op {
            Op::Const => self.load_ty(s, nd.k as u64, t),
            Op::Ite => { let a = self.ite_load(s, nd.b, t)?; let b = self.ite_load(s, nd.c, t)?; Ok(Self::vite(nd.a, &a, &b, t)) }
            _ => unreachable!(),
        }
    }
    fn vite(c: E, a: &Val, b: &Val, t: &Ty) -> Val {
        match (a, b) {
            (Val::Agg(x), Val::Agg(y)) => Val::Agg(Rc::new(x.iter().zip(y.iter()).enumerate().map(|(i, (p, q))| Self::vite(c, p, q, &t.field(i as u64).1)).collect())),
            (Val::C(x), Val::C(y)) if x == y => Val::C(*x),
            _ => { let w = t.bits(); Val::of(ite(c, a.e(w), b.e(w))) }
        }
    }
    fn load(&mut self, s: &mut State, p: &Val, t: &Ty) -> R<Val> {
        match p {
            Val::C(a) => self.load_ty(s, *a, t),
            Val::E(e) => {
                let e = *e;
                let mut l = vec![];
                if Self::leaves(e, &mut l, 32) { if let Ok(v) = self.ite_load(s, e, t) { return Ok(v); } }
                else if !t.is_agg() {
                    // table lookup: address = const + bounded linear expression inside one object
                    let v0 = s.model.eval(e) as u64;
                    let base = v0 & !0xffff_ffff;
                    if let Some((o, _)) = self.obj(s, v0) {
                        let (lo, hi) = range(e);
                        let (lo, hi) = (lo as u64, hi as u64);
                        let nb = (t.bits() as u64 + 7) / 8;
                        let (mut lo, mut hi) = if lo >> 32 == base >> 32 && hi >> 32 == base >> 32 { (lo, hi) } else { (base, base + o.size - nb.min(o.size)) };
                        let mut ok = true;
                        if hi + nb > base + o.size || lo != range(e).0 as u64 || hi != range(e).1 as u64 {
                            hi = hi.min(base + o.size - nb.min(o.size));
                            // confirm with the solver that the address stays inside
                            let inside = and(not(ult(e, konst(lo as u128, 64))), not(ult(konst(hi as u128, 64), e)));
                            match self.query(s, not(inside)) { Ok(None) => {} _ => ok = false }
                        }
                        // stride from known zero low bits
                        let tz = low_zero_bits(e).min(16);
                        let stride = 1u64 << tz;
                        lo = lo & !(stride - 1);
                        let count = (hi - lo) / stride + 1;
                        if ok && count > 65536 && t.bits() == 8 && o.sym.is_none() && base >> 32 >= G_BASE && (base >> 32) < HEAP0 {
                            if let Some(v) = s.uf.get(&e) { return Ok(Val::E(*v)); }
                            let id = s.nvars; s.nvars += 1;
                            Rc::make_mut(&mut s.uf).insert(e, var(id));
                            return Ok(Val::E(var(id)));
                        }
                        if ok && count <= 4096 && lo >= base {
                            let mut vals = Vec::with_capacity(count as usize);
                            for k in 0..count { let a = lo + k * stride; vals.push(if a - base + nb <= o.size { self.load_ty(s, a, t)?.e(t.bits()) } else { konst(0, t.bits()) }) }
                            let idx = bin(Op::Sub, e, konst(lo as u128, 64));
                            let nbits = 64 - (count - 1).max(1).leading_zeros() as u16;
                            let idx = extract(idx, tz as u16, nbits);
                            return Ok(Val::of(mux(idx, nbits, &vals)));
                        }
                    }
                }
                let a = self.concretize(s, e)? as u64;
                self.load_ty(s, a, t)
            }
            _ => panic!(),
        }
    }

    // ---------- stepping ----------
    #[inline]
    fn get(&self, s: &State, o: O) -> Val { if o & CONST != 0 { s.cur.f.consts[(o & !CONST) as usize].clone() } else { s.cur.regs[o as usize].clone() } }
    fn jump(&mut self, s: &mut State, to: u32) {
        let from = s.cur.blk;
        let b = &s.cur.f.blocks[to as usize];
        if !b.phis.is_empty() {
            let vals: Vec<Val> = b.phis.iter().map(|p| { let o = p.inc.iter().find(|x| x.0 == from).expect("phi").1; self.get(s, o) }).collect();
            for (p, v) in b.phis.iter().zip(vals) { s.cur.regs[p.dst as usize] = v; }
        }
        b.hit.set(true);
        s.cur.blk = to; s.cur.pc = 0;
    }
    /// runs instructions until a block change
    fn step_block(&mut self, s: &mut State) -> R<()> {
        let f = s.cur.f;
        let b = &f.blocks[s.cur.blk as usize];
        let depth = s.frames.len();
        if s.steps & 0xffff < 64 && Instant::now() > self.deadline { return Err(Stop::End(End::Limit("time limit".into()))); }
        loop {
            let i = &b.ins[s.cur.pc as usize];
            s.steps += 1;
            if self.trace { eprintln!("[{}] {} b{} {:?}", depth, &f.name[f.name.len().saturating_sub(40)..], s.cur.blk, i); }
            match i {
                I::Bin(op, w, d, a, c) => { let v = self.binop(s, *op, *w, *a, *c); s.cur.regs[*d as usize] = v; }
                I::ICmp(p, w, d, a, c) => { let v = icmp(*p, *w, &self.get(s, *a), &self.get(s, *c)); s.cur.regs[*d as usize] = v; }
                I::Load(t, d, p) => {
                    let p = self.get(s, *p);
                    let v = self.load(s, &p, t)?; s.cur.regs[*d as usize] = v;
                }
                I::Store(t, v, p) => {
                    let v = self.get(s, *v); let p = self.get(s, *p);
                    let a = self.cv(s, &p)?;
                    self.store_ty(s, a, t, &v)?;
                }
                I::Gep(d, base, off, idx) => {
                    let bv = self.get(s, *base);
                    let mut v = match bv { Val::C(x) => Val::C(x.wrapping_add(*off)), Val::E(e) => Val::of(bin(Op::Add, e, konst(*off as u128, 64))), _ => return self.unsupported("vector gep") };
                    for (o, sc, w) in idx {
                        let iv = self.get(s, *o);
                        v = match (v, iv) {
                            (Val::C(x), Val::C(k)) => Val::C(x.wrapping_add((sx(k as u128, *w) as u64).wrapping_mul(*sc))),
                            (v, iv) => { let e = iv.e(*w); let e = if *w < 64 { sext(e, 64) } else { extract(e, 0, 64) }; Val::of(bin(Op::Add, v.e(64), bin(Op::Mul, e, konst(*sc as u128, 64)))) }
                        };
                    }
                    s.cur.regs[*d as usize] = v;
                }
                I::Br(to) => { self.jump(s, *to); return Ok(()); }
                I::CondBr(k, a, c) => {
                    let v = match self.get(s, *k) { Val::C(x) => x != 0, Val::E(e) => self.branch(s, e, *a, *c)?, _ => panic!() };
                    self.jump(s, if v { *a } else { *c });
                    return Ok(());
                }
                I::Select(t, d, k, a, c) => {
                    let v = match self.get(s, *k) {
                        Val::C(x) => self.get(s, if x != 0 { *a } else { *c }),
                        Val::E(e) => Self::vite(e, &self.get(s, *a), &self.get(s, *c), t),
                        Val::Agg(ks) => {
                            let (Val::Agg(x), Val::Agg(y)) = (self.get(s, *a), self.get(s, *c)) else { panic!() };
                            let et = t.field(0).1;
                            Val::Agg(Rc::new((0..ks.len()).map(|i| match &ks[i] { Val::C(k) => if *k != 0 { x[i].clone() } else { y[i].clone() }, Val::E(e) => Self::vite(*e, &x[i], &y[i], &et), _ => panic!() }).collect()))
                        }
                    };
                    s.cur.regs[*d as usize] = v;
                }
                I::Cast(k, t, t2, d, a) => { let v = self.get(s, *a); let v = self.cast(s, *k, t, t2, v)?; s.cur.regs[*d as usize] = v; }
                I::Copy(d, a) => { s.cur.regs[*d as usize] = self.get(s, *a); }
                I::ExtractV(d, a, ix) => { let mut v = self.get(s, *a); for i in ix { v = match v { Val::Agg(x) => x[*i as usize].clone(), _ => panic!() } } s.cur.regs[*d as usize] = v; }
                I::InsertV(d, a, x, ix) => { let v = self.get(s, *a); let x = self.get(s, *x); s.cur.regs[*d as usize] = ins(v, ix, x); }
                I::Alloca(d, sz, nn) => { let k = self.get(s, *nn).c(); let a = self.alloc(s, sz * k); s.cur.allocas.push(((a >> 32) - HEAP0) as u32); s.cur.regs[*d as usize] = Val::C(a); }
                I::Call(c) => { let before = (s.frames.len(), s.cur.blk); self.call(s, c)?; if s.frames.len() != before.0 || s.cur.blk != before.1 || c.normal != NONE { return Ok(()); } continue; }
                I::Ret(o) => {
                    let v = if *o == NONE { None } else { Some(self.get(s, *o)) };
                    for a in std::mem::take(&mut s.cur.allocas) { if s.heap[a as usize].is_some() { s.heap[a as usize] = None; s.free.push(a); } }
                    let Some(p) = s.frames.pop() else { return Err(Stop::End(End::Done)) };
                    let (dst, normal) = (s.cur.dst, s.cur.normal);
                    s.cur = Rc::try_unwrap(p).unwrap_or_else(|p| (*p).clone());
                    if dst != NONE { s.cur.regs[dst as usize] = v.unwrap(); }
                    if normal != NONE { self.jump(s, normal); }
                    return Ok(());
                }
                I::Switch(w, v, def, cs) => {
                    match self.get(s, *v) {
                        Val::E(e) if as_const(e).is_none() => {
                            let cur = s.model.eval(e);
                            let mut targets: Vec<u32> = cs.iter().map(|c| c.1).collect(); targets.push(*def); targets.sort(); targets.dedup();
                            let mine = cs.iter().find(|c| c.0 == cur).map(|c| c.1).unwrap_or(*def);
                            let mut forked = false;
                            let conds: Vec<(u32, E)> = targets.iter().map(|t| {
                                let mut c = fls();
                                for (k, b) in cs { if b == t { c = or(c, eq(e, konst(*k, *w))) } }
                                if t == def { let mut dc = tru(); for (k, _) in cs { dc = and(dc, not(eq(e, konst(*k, *w)))) } c = or(c, dc) }
                                (*t, c) }).collect();
                            let mut my = tru();
                            for (t, c) in &conds {
                                if *t == mine { my = *c; continue; }
                                if let Some(mut st) = self.fork_with(s, *c) { self.jump(&mut st, *t); self.work.push(st); forked = true; }
                            }
                            if forked { self.add_con(s, my); }
                            self.jump(s, mine);
                        }
                        v => { let k = v.k().unwrap(); let t = cs.iter().find(|c| c.0 == k).map(|c| c.1).unwrap_or(*def); self.jump(s, t); }
                    }
                    return Ok(());
                }
                I::VBin(op, w, d, a, c) => {
                    let (Val::Agg(x), Val::Agg(y)) = (self.get(s, *a), self.get(s, *c)) else { panic!() };
                    s.cur.regs[*d as usize] = Val::Agg(Rc::new(x.iter().zip(y.iter()).map(|(p, q)| bin_v(*op, *w, p, q)).collect()));
                }
                I::VICmp(p, w, d, a, c) => {
                    let (Val::Agg(x), Val::Agg(y)) = (self.get(s, *a), self.get(s, *c)) else { panic!() };
                    s.cur.regs[*d as usize] = Val::Agg(Rc::new(x.iter().zip(y.iter()).map(|(a, b)| icmp(*p, *w, a, b)).collect()));
                }
                I::ExtractE(d, a, i) => { let Val::Agg(x) = self.get(s, *a) else { panic!() }; let i = self.get(s, *i); let i = self.cv(s, &i)?; s.cur.regs[*d as usize] = x[i as usize].clone(); }
                I::InsertE(d, a, v, i) => { let Val::Agg(mut x) = self.get(s, *a) else { panic!() }; let i = self.get(s, *i); let i = self.cv(s, &i)?; let v = self.get(s, *v); Rc::make_mut(&mut x)[i as usize] = v; s.cur.regs[*d as usize] = Val::Agg(x); }
                I::Shuffle(d, a, c, mk) => {
                    let (Val::Agg(x), Val::Agg(y)) = (self.get(s, *a), self.get(s, *c)) else { panic!() };
                    s.cur.regs[*d as usize] = Val::Agg(Rc::new(mk.iter().map(|&i| { let i = i as usize; if i < x.len() { x[i].clone() } else { y[i - x.len()].clone() } }).collect()));
                }
                I::Rmw(op, t, d, p, v) => {
                    let p = self.get(s, *p); let a = self.cv(s, &p)?; let old = self.load_ty(s, a, t)?; let v = self.get(s, *v);
                    let w = t.bits();
                    let nv = match op.as_str() { "xchg" => v, "add" => bin_v(Op::Add, w, &old, &v), "sub" => bin_v(Op::Sub, w, &old, &v), "and" => bin_v(Op::And, w, &old, &v), "or" => bin_v(Op::Or, w, &old, &v), "xor" => bin_v(Op::Xor, w, &old, &v), _ => return self.unsupported(format!("atomicrmw {}", op)) };
                    self.store_ty(s, a, t, &nv)?; s.cur.regs[*d as usize] = old;
                }
                I::CmpXchg(t, d, p, x, y) => {
                    let p = self.get(s, *p); let a = self.cv(s, &p)?; let old = self.load_ty(s, a, t)?; let w = t.bits();
                    let c = eq(old.e(w), self.get(s, *x).e(w)); let ok = self.decide(s, c)?;
                    if ok { let nv = self.get(s, *y); self.store_ty(s, a, t, &nv)?; }
                    s.cur.regs[*d as usize] = Val::Agg(Rc::new(vec![old, Val::C(ok as u64)]));
                }
                I::FBin(op, w, d, a, c) => {
                    let (x, y) = (self.get(s, *a), self.get(s, *c));
                    let (Some(x), Some(y)) = (x.k(), y.k()) else { return self.unsupported("symbolic floating-point arithmetic") };
                    let r = if *w == 64 { let (x, y) = (f64::from_bits(x as u64), f64::from_bits(y as u64)); (match op { b'+' => x + y, b'-' => x - y, b'*' => x * y, b'/' => x / y, _ => x % y }).to_bits() }
                        else { let (x, y) = (f32::from_bits(x as u32), f32::from_bits(y as u32)); (match op { b'+' => x + y, b'-' => x - y, b'*' => x * y, b'/' => x / y, _ => x % y }).to_bits() as u64 };
                    s.cur.regs[*d as usize] = Val::C(r);
                }
                I::FNeg(w, d, a) => { let e = self.get(s, *a).e(*w); s.cur.regs[*d as usize] = Val::of(bin(Op::Xor, e, konst(1u128 << (w - 1), *w))); }
                I::FCmp(p, w, d, a, c) => { let v = fcmp(p, *w, self.get(s, *a).e(*w), self.get(s, *c).e(*w)); s.cur.regs[*d as usize] = Val::of(v); }
                I::Unreachable => return Err(Stop::End(End::Memory("unreachable executed".into()))),
                I::Bad(x) => return self.unsupported(x.clone()),
                I::Nop => {}
            }
            s.cur.pc += 1;
        }
    }
    /// symbolic conditional branch; pushes the other side already jumped
    fn branch(&mut self, s: &mut State, e: E, a: u32, c: u32) -> R<bool> {
        let v = s.model.eval(e) != 0;
        let (mine, other, ot) = if v { (e, not(e), c) } else { (not(e), e, a) };
        if let Some(mut t) = self.fork_with(s, other) { self.jump(&mut t, ot); self.work.push(t); self.add_con(s, mine); }
        Ok(v)
    }
    #[inline]
    fn binop(&self, s: &State, op: Op, w: u16, a: O, b: O) -> Val {
        if a & CONST == 0 { if let (Val::C(x), true) = (&s.cur.regs[a as usize], w <= 64) {
            let y = if b & CONST != 0 { &s.cur.f.consts[(b & !CONST) as usize] } else { &s.cur.regs[b as usize] };
            if let Val::C(y) = y { return bin_cc(op, w, *x, *y); }
        } }
        bin_v(op, w, &self.get(s, a), &self.get(s, b))
    }
    fn cast(&mut self, s: &mut State, k: CastK, t: &Ty, t2: &Ty, v: Val) -> R<Val> {
        match k {
            CastK::Trunc | CastK::ZExt | CastK::SExt => {
                if let Val::Agg(a) = v {
                    let (w, w2) = (t.field(0).1.bits(), t2.field(0).1.bits());
                    return Ok(Val::Agg(Rc::new(a.iter().map(|x| ext(k, w, w2, x)).collect())));
                }
                Ok(ext(k, t.bits(), t2.bits(), &v))
            }
            CastK::PtrInt => { let (w, w2) = (t.bits(), t2.bits()); Ok(if w2 < w { ext(CastK::Trunc, w, w2, &v) } else if w2 > w { ext(CastK::ZExt, w, w2, &v) } else { v }) }
            CastK::Bitcast => {
                if !t.is_agg() && !t2.is_agg() { return Ok(v); }
                let (e, _) = self.flatten(t, &v);
                if let Ty::Vec(nn, et) = t2 { let w = et.bits(); return Ok(Val::Agg(Rc::new((0..*nn as u16).map(|i| Val::of(extract(e, i * w, w))).collect()))); }
                Ok(Val::of(e))
            }
            _ => {
                if let (CastK::UiToFp | CastK::SiToFp, Val::E(e)) = (k, &v) { let c = self.concretize(s, *e)?; return self.cast(s, k, t, t2, Val::C(c as u64)); }
                if let (CastK::FpExt, Val::E(e)) = (k, &v) { if t.bits() == 32 && t2.bits() == 64 { return Ok(Val::of(wide(*e, fpext(*e)))); } }
                if let (CastK::FpTrunc, Val::E(e)) = (k, &v) { if n(*e).op == Op::Wide { let x = n(*e).a;
                    let nan = and(eq(extract(x, 23, 8), konst(255, 8)), not(eq(extract(x, 0, 23), konst(0, 23))));
                    return Ok(Val::of(ite(nan, bin(Op::Or, x, konst(1 << 22, 32)), x)));
                } }
                let Some(x) = v.k() else { return self.unsupported("symbolic floating-point conversion") };
                let fin = |x: u128| -> f64 { if *t == Ty::F64 { f64::from_bits(x as u64) } else { f32::from_bits(x as u32) as f64 } };
                let w2 = t2.bits();
                Ok(match k {
                    CastK::FpToUi => Val::C(((fin(x) as u128) & mask(w2)) as u64),
                    CastK::FpToSi => Val::C(((fin(x) as i128 as u128) & mask(w2)) as u64),
                    CastK::UiToFp => if w2 == 64 { Val::C((x as f64).to_bits()) } else { Val::C((x as f32).to_bits() as u64) },
                    CastK::SiToFp => { let y = sx(x, t.bits()); if w2 == 64 { Val::C((y as f64).to_bits()) } else { Val::C((y as f32).to_bits() as u64) } }
                    CastK::FpExt => Val::C((f32::from_bits(x as u32) as f64).to_bits()),
                    CastK::FpTrunc => Val::C((f64::from_bits(x as u64) as f32).to_bits() as u64),
                    _ => unreachable!(),
                })
            }
        }
    }

    // ---------- calls ----------
    fn call(&mut self, s: &mut State, c: &'static CallI) -> R<()> {
        let fid = match &c.callee {
            Callee::Fn(f) => *f,
            Callee::Asm(t) => {
                let r = if c.ret.is_agg() { zero_val(&c.ret) } else { Val::C(0) };
                if !t.is_empty() && !t.contains("cpuid") && !t.contains("xgetbv") { return self.unsupported(format!("inline asm {}", t)); }
                return self.finish(s, c, r);
            }
            Callee::Ind(o) => {
                let p = self.get(s, *o); let a = self.cv(s, &p)?;
                if a >> 32 != CODE_IDX { return Err(Stop::End(End::Memory(format!("call of invalid address {:#x}", a)))); }
                ((a & 0xffff_ffff) / 16) as u32
            }
        };
        let b = { let b = self.bi[fid as usize]; if b == Bi::Unset { let fi = &self.m.fns[fid as usize]; let nb = classify(fi.name); let nb = if fi.def.is_some() && OS.contains(&fi.name) { Bi::None } else { nb }; self.bi[fid as usize] = nb; nb } else { b } };
        if b != Bi::None && !(b == Bi::FormatInner && s.opts[0] == 0) && !(b == Bi::HashFinish && s.opts[1] == 0) {
            let city_concrete = b == Bi::City && { let (p, l) = (self.get(s, c.args[0]), self.get(s, c.args[1])); let p = self.cv(s, &p)?; let l = self.cv(s, &l)?; self.read_bytes(s, p, l)?.iter().all(|v| v.k().is_some()) };
            if !city_concrete {
                let r = self.builtin(s, b, c, fid)?;
                return self.finish(s, c, r);
            }
        }
        let Some(f) = self.m.func(fid) else { return self.unsupported(format!("external function {}", self.m.fns[fid as usize].name)) };
        if s.frames.len() > self.max_frames { return Err(Stop::End(End::Limit("recursion depth".into()))); }
        let mut regs = Vec::with_capacity(f.nregs as usize);
        for o in c.args.iter().take(f.params as usize) { regs.push(self.get(s, *o)); }
        regs.resize(f.nregs as usize, Val::C(0));
        s.cur.pc += 1;
        let nf = Frame { f, blk: 0, pc: 0, regs, allocas: vec![], dst: c.dst, normal: c.normal };
        f.blocks[0].hit.set(true);
        let old = std::mem::replace(&mut s.cur, nf);
        s.frames.push(Rc::new(old));
        Ok(())
    }
    fn finish(&mut self, s: &mut State, c: &CallI, r: Val) -> R<()> {
        if c.dst != NONE { s.cur.regs[c.dst as usize] = r; }
        if c.normal != NONE { self.jump(s, c.normal); } else { s.cur.pc += 1; }
        Ok(())
    }
    fn panic_loc(&mut self, s: &State, p: &Val) -> String {
        let Val::C(a) = p else { return "?".into() };
        let Ok(Val::C(fp)) = self.read_scalar(s, *a, 64) else { return "?".into() };
        let Ok(Val::C(fl)) = self.read_scalar(s, *a + 8, 64) else { return "?".into() };
        let Ok(Val::C(line)) = self.read_scalar(s, *a + 16, 32) else { return "?".into() };
        let Ok(Val::C(col)) = self.read_scalar(s, *a + 20, 32) else { return "?".into() };
        let b: Vec<u8> = self.read_bytes(s, fp, fl.min(300)).unwrap_or_default().iter().map(|v| v.k().unwrap_or(63) as u8).collect();
        format!("{}:{}:{}", String::from_utf8_lossy(&b), line, col)
    }
    fn builtin(&mut self, s: &mut State, b: Bi, c: &'static CallI, fid: u32) -> R<Val> {
        let arg = |e: &Engine, s: &State, i: usize| e.get(s, c.args[i]);
        let w = if c.ret.is_agg() { 0 } else { c.ret.bits() };
        macro_rules! a { ($i:expr) => { arg(self, s, $i) } }
        macro_rules! ac { ($i:expr) => {{ let v = arg(self, s, $i); self.cv(s, &v)? }} }
        Ok(match b {
            Bi::SymBytes => {
                let p = ac!(0); let nn = ac!(1);
                for i in 0..nn { let id = s.nvars; s.nvars += 1; s.inputs.push(InB::Var(id)); let v = var(id); self.write_scalar(s, p + i, 8, &Val::E(v))?; }
                Val::C(0)
            }
            Bi::SymAssume => {
                match a!(0) { Val::C(x) => if x & 1 == 0 { return Err(Stop::End(End::Assume)) }, Val::E(e) => {
                    let e = if width(e) > 1 { extract(e, 0, 1) } else { e };
                    if s.model.eval(e) != 0 { self.add_con(s, e); } else {
                        match self.query(s, e) { Ok(Some(v)) => { s.model = Self::with_model(s, &v); self.add_con(s, e); } Ok(None) => return Err(Stop::End(End::Assume)), Err(()) => return Err(Stop::End(End::Limit("solver timeout (assume)".into()))) }
                    } } _ => panic!() }
                Val::C(0)
            }
            Bi::SymCheck => {
                let id = a!(1).c() as u32;
                self.st.checks += 1;
                match a!(0) { Val::C(x) => if x & 1 == 0 { return Err(Stop::End(End::Check(id))) }, Val::E(e) => {
                    let e = if width(e) > 1 { extract(e, 0, 1) } else { e };
                    if !self.decide(s, e)? { return Err(Stop::End(End::Check(id))) }
                } _ => panic!() }
                Val::C(0)
            }
            Bi::SymChoice => {
                let nn = ac!(0);
                let k = s.choices.len();
                if nn == 0 { return Err(Stop::End(End::Assume)); }
                if k < self.prefix.len() { let v = self.prefix[k]; self.choose(s, v); Val::C(v) }
                else if k < self.split_depth && nn > 1 { return Err(Stop::End(End::Split(nn))); }
                else {
                    for v in (1..nn).rev() { let mut t = s.clone(); self.choose(&mut t, v); self.finish(&mut t, c, Val::C(v))?; self.st.forks += 1; self.work.push(t); }
                    self.choose(s, 0); Val::C(0)
                }
            }
            Bi::SymObserve => { let t = a!(0).c() as u32; let v = a!(1); s.obs.push((t, v)); Val::C(0) }
            Bi::SymReach => { let t = a!(0).c() as u32; s.reach.push(t); Val::C(0) }
            Bi::SymOpt => { let k = ac!(0); let v = ac!(1); s.opts[k as usize] = v; Val::C(0) }
            Bi::SymConcrete => { let v = a!(0); let x = self.cv(s, &v)?; Val::C(x) }
            Bi::PanicFmt => { let l = c.args.len(); let p = a!(l - 1); let loc = self.panic_loc(s, &p); return Err(Stop::End(End::Panic(loc))); }
            Bi::NounwindFmt | Bi::Abort | Bi::ITrap => { let l = self.repo_loc(s); return Err(Stop::End(End::Abort(l))); }
            Bi::Exit => return Err(Stop::End(End::Done)),
            Bi::InitFn => { let Some(g) = self.m.globals.iter().position(|g| g.name.contains("ARGV_INIT_ARRAY")) else { return self.unsupported("no argument initialiser") }; self.read_scalar(s, g_addr(g as u32), 64)? }
            Bi::Print => Val::C(0),
            Bi::FormatInner => {
                // String { cap, ptr, len } = "?"
                let p = ac!(0); let buf = self.alloc(s, 1); self.write_scalar(s, buf, 8, &Val::C(63))?;
                self.write_scalar(s, p, 64, &Val::C(1))?; self.write_scalar(s, p + 8, 64, &Val::C(buf))?; self.write_scalar(s, p + 16, 64, &Val::C(1))?;
                Val::C(0)
            }
            Bi::HashFinish => return self.unsupported("hash"),
            Bi::RAlloc | Bi::RAllocZ | Bi::Malloc => { let v = a!(0); Val::C(self.alloc_v(s, &v)?) }
            Bi::Calloc => { let (x, y) = (a!(0), a!(1)); let v = bin_v(Op::Mul, 64, &x, &y); Val::C(self.alloc_v(s, &v)?) }
            Bi::Memalign => { let p = ac!(0); let v = a!(2); let m = self.alloc_v(s, &v)?; self.write_scalar(s, p, 64, &Val::C(m))?; Val::C(0) }
            Bi::Realloc | Bi::RRealloc => {
                let p = ac!(0); let v = if b == Bi::Realloc { a!(1) } else { a!(3) };
                let nn = self.alloc_size(s, &v)?;
                if p == 0 { return Ok(Val::C(self.alloc(s, nn))); }
                let i = ((p >> 32) - HEAP0) as usize;
                let o = Rc::make_mut(s.heap[i].as_mut().unwrap());
                o.size = nn;
                if o.data.len() as u64 > nn { o.data.truncate(nn as usize); if let Some(sy) = &mut o.sym { sy.truncate(nn as usize) } }
                if nn <= 4096 { o.grow(nn as usize) }
                Val::C(p)
            }
            Bi::Free | Bi::RDealloc => { let p = ac!(0); self.dealloc(s, p)?; Val::C(0) }
            Bi::Memcpy => { let d = ac!(0); let sr = ac!(1); let nn = ac!(2); if d != sr { self.copy(s, d, sr, nn)?; } Val::C(d) }
            Bi::Memset => {
                let d = ac!(0); let nn = ac!(2); let v = a!(1);
                if nn > 0 {
                    if nn > 64 << 20 { return self.unsupported("large memset"); }
                    // zeroing untouched tail of a lazily grown object is free
                    match v.k() {
                        Some(k) => {
                            let idx = d >> 32;
                            let (o, off) = self.obj_mut(s, d, nn)?; let _ = idx;
                            for x in &mut o.data[off..off + nn as usize] { *x = k as u8 }
                            if let Some(sy) = &mut o.sym { for x in &mut sy[off..off + nn as usize] { *x = 0 } }
                        }
                        None => { let e = match &v { Val::E(e) => extract(*e, 0, 8), _ => panic!() }; for i in 0..nn { self.write_scalar(s, d + i, 8, &Val::of(e))?; } }
                    }
                }
                Val::C(d)
            }
            Bi::Memcmp => {
                let (p, q) = (ac!(0), ac!(1)); let nn = ac!(2);
                let (x, y) = (self.read_bytes(s, p, nn)?, self.read_bytes(s, q, nn)?);
                let bcmp = self.m.fns[fid as usize].name == "bcmp";
                if bcmp {
                    let mut ne = fls();
                    for (a, b) in x.iter().zip(&y) { let d = not(eq(a.e(8), b.e(8))); ne = or(ne, d); if as_const(ne) == Some(1) { break } }
                    Val::of(zext(ne, 32))
                } else {
                    let mut r = konst(0, 32);
                    for (a, b) in x.iter().zip(&y).rev() { let (a, b) = (a.e(8), b.e(8)); r = ite(eq(a, b), r, bin(Op::Sub, zext(a, 32), zext(b, 32))); }
                    Val::of(r)
                }
            }
            Bi::Strlen => { let p = ac!(0); let v = self.cstr(s, p)?; Val::C(v.len() as u64) }
            Bi::Zero => Val::C(0),
            Bi::MinusOne => Val::C(mask(w.max(1)) as u64),
            Bi::Errno => {
                if self.errno == 0 { self.errno = 1; }
                // a per-state cell: allocate lazily
                if s.opts[7] == 0 { let p = self.alloc(s, 8); s.opts[7] = p; }
                Val::C(s.opts[7])
            }
            Bi::Write | Bi::Wr => a!(2),
            Bi::Syscall => {
                let nr = ac!(0);
                match nr {
                    318 => { let p = ac!(1); let nn = ac!(2); for i in 0..nn { self.write_scalar(s, p + i, 8, &Val::C((i * 37 + 11) & 255))?; } Val::C(nn) }
                    _ => Val::C(0),
                }
            }
            Bi::GetRandom => { let p = ac!(0); let nn = ac!(1); for i in 0..nn { self.write_scalar(s, p + i, 8, &Val::C((i * 37 + 11) & 255))?; } Val::C(nn) }
            Bi::ZVersion => { let p = self.alloc(s, 8); for (i, ch) in b"1.3\0".iter().enumerate() { self.write_scalar(s, p + i as u64, 8, &Val::C(*ch as u64))?; } Val::C(p) }
            Bi::Sha1 => {
                // SHA-1: exact on concrete blocks; on symbolic ones a fixed arbitrary value per (structurally) distinct input
                let st = ac!(0); let bl = ac!(1); let cnt = ac!(2);
                for i in 0..cnt {
                    let mut key = self.read_bytes(s, st, 20)?; key.extend(self.read_bytes(s, bl + i * 64, 64)?);
                    let out: Vec<Val> = if key.iter().all(|v| v.k().is_some()) {
                        let k: Vec<u8> = key.iter().map(|v| v.k().unwrap() as u8).collect();
                        sha1_block(&k).into_iter().map(|x| Val::C(x as u64)).collect()
                    } else {
                        pseudo(&key, 20).into_iter().map(|x| Val::C(x as u64)).collect()
                    };
                    for (j, v) in out.iter().enumerate() { self.write_scalar(s, st + j as u64, 8, v)?; }
                }
                Val::C(0)
            }
            Bi::City => {
                // uninterpreted function: equal inputs give equal results, decided by the solver
                let p = ac!(0); let l = ac!(1);
                let bytes: Vec<E> = self.read_bytes(s, p, l)?.iter().map(|v| v.e(8)).collect();
                for (k, v) in s.city.clone().iter() {
                    if k.len() != bytes.len() { continue; }
                    let mut d = fls();
                    for (x, y) in k.iter().zip(&bytes) { d = or(d, not(eq(*x, *y))); }
                    if let Ok(None) = self.query(s, d) { return Ok(Val::E(*v)); }
                }
                let mut r: Option<E> = None;
                for _ in 0..8 { let id = s.nvars; s.nvars += 1; r = Some(match r { None => var(id), Some(x) => concat(x, var(id)) }); }
                Rc::make_mut(&mut s.city).push((bytes, r.unwrap()));
                Val::E(r.unwrap())
            }
            Bi::Cxa => Val::C(0),
            Bi::ITls => a!(0),
            Bi::IExpect | Bi::ISsaCopy => a!(0),
            Bi::IIsConst => Val::C(0),
            Bi::ObjSize => Val::C(u64::MAX),
            Bi::IUMax | Bi::IUMin | Bi::ISMax | Bi::ISMin => {
                let (x, y) = (a!(0), a!(1));
                if w == 64 && matches!(b, Bi::IUMax | Bi::IUMin) && (matches!(x, Val::E(_)) || matches!(y, Val::E(_))) {
                    // lengths: fork rather than build nested conditionals
                    let lt = self.decide(s, ult(x.e(64), y.e(64)))?;
                    return Ok(if lt == (b == Bi::IUMin) { x } else { y });
                }
                let f = |w: u16, x: &Val, y: &Val| { let (p, q) = (x.e(w), y.e(w)); let lt = if matches!(b, Bi::IUMax | Bi::IUMin) { ult(p, q) } else { slt(p, q) }; Val::of(if matches!(b, Bi::IUMin | Bi::ISMin) { ite(lt, p, q) } else { ite(lt, q, p) }) };
                if let (Val::Agg(x), Val::Agg(y)) = (&x, &y) { let w = c.ret.field(0).1.bits(); Val::Agg(Rc::new(x.iter().zip(y.iter()).map(|(p, q)| f(w, p, q)).collect())) } else { f(w, &x, &y) }
            }
            Bi::IUAddSat => { let (x, y) = (a!(0).e(w), a!(1).e(w)); let r = bin(Op::Add, x, y); Val::of(ite(ult(r, x), konst(mask(w), w), r)) }
            Bi::IUSubSat => {
                let (x, y) = (a!(0), a!(1));
                let f = |w: u16, x: &Val, y: &Val| { let (p, q) = (x.e(w), y.e(w)); Val::of(ite(ult(p, q), konst(0, w), bin(Op::Sub, p, q))) };
                if let (Val::Agg(x), Val::Agg(y)) = (&x, &y) { let w = c.ret.field(0).1.bits(); Val::Agg(Rc::new(x.iter().zip(y.iter()).map(|(p, q)| f(w, p, q)).collect())) } else { f(w, &x, &y) }
            }
            Bi::ISAddSat | Bi::ISSubSat => {
                let (x, y) = (a!(0).e(w), a!(1).e(w)); let op = if b == Bi::ISAddSat { Op::Add } else { Op::Sub };
                let r = bin(op, x, y); let wide = bin(op, sext(x, w + 1), sext(y, w + 1)); let ovf = not(eq(extract(wide, w, 1), extract(wide, w - 1, 1)));
                let neg = extract(wide, w, 1); let min = konst(1u128 << (w - 1), w); let max = konst(mask(w) >> 1, w);
                Val::of(ite(ovf, ite(neg, min, max), r))
            }
            Bi::IUAddO | Bi::IUSubO | Bi::IUMulO | Bi::ISAddO | Bi::ISSubO | Bi::ISMulO => {
                let w = c.tys[0].bits();
                let (x, y) = (a!(0), a!(1));
                if let (Some(p), Some(q), true) = (x.k(), y.k(), w <= 64) {
                    let (r, o) = match b {
                        Bi::IUAddO => (p + q, p + q > mask(w)), Bi::IUSubO => (p.wrapping_sub(q), p < q), Bi::IUMulO => (p * q, p * q > mask(w)),
                        _ => { let (p, q) = (sx(p, w), sx(q, w)); let r = match b { Bi::ISAddO => p + q, Bi::ISSubO => p - q, _ => p * q }; (r as u128, sx(r as u128 & mask(w), w) != r) }
                    };
                    return Ok(Val::Agg(Rc::new(vec![Val::C((r & mask(w)) as u64), Val::C(o as u64)])));
                }
                let (p, q) = (x.e(w), y.e(w));
                let op = match b { Bi::IUAddO | Bi::ISAddO => Op::Add, Bi::IUSubO | Bi::ISSubO => Op::Sub, _ => Op::Mul };
                let r = bin(op, p, q);
                let o = match b {
                    Bi::IUAddO => ult(r, p),
                    Bi::IUSubO => ult(p, q),
                    Bi::ISAddO => { let (sa, sb, sr) = (extract(p, w - 1, 1), extract(q, w - 1, 1), extract(r, w - 1, 1)); and(eq(sa, sb), not(eq(sa, sr))) }
                    Bi::ISSubO => { let (sa, sb, sr) = (extract(p, w - 1, 1), extract(q, w - 1, 1), extract(r, w - 1, 1)); and(not(eq(sa, sb)), not(eq(sa, sr))) }
                    Bi::IUMulO => {
                        let (hp, hq) = (range(p).1, range(q).1);
                        if hp.checked_mul(hq).map_or(false, |x| x <= mask(w)) { fls() }
                        else if let Some(k) = q_const(p, q) { let (v, k) = k; if k == 0 { fls() } else { ult(konst(mask(w) / k, w), v) } }
                        else { let m = bin(Op::Mul, zext(p, 2 * w), zext(q, 2 * w)); not(eq(extract(m, w, w), konst(0, w))) }
                    }
                    _ => { let m = bin(Op::Mul, sext(p, 2 * w), sext(q, 2 * w)); not(eq(m, sext(r, 2 * w))) }
                };
                Val::Agg(Rc::new(vec![Val::of(r), Val::of(o)]))
            }
            Bi::ICtlz | Bi::ICttz => {
                let v = a!(0);
                match v.k() {
                    Some(k) => { let r = if b == Bi::ICtlz { (k << (128 - w)).leading_zeros().min(w as u32) } else { k.trailing_zeros().min(w as u32) }; if w > 64 { Val::E(konst(r as u128, w)) } else { Val::C(r as u64) } }
                    None => { let e = v.e(w); let mut r = konst(w as u128, w); for i in 0..w { let bit = if b == Bi::ICtlz { i } else { w - 1 - i }; let val = if b == Bi::ICtlz { w - 1 - bit } else { bit }; r = ite(extract(e, bit, 1), konst(val as u128, w), r); } if b == Bi::ICttz && as_const(r).is_none() && small(e, 600) { let k = self.concretize(s, r)?; Val::of(konst(k, w)) } else { Val::of(r) } }
                }
            }
            Bi::ICtpop => { let v = a!(0); match v.k() { Some(k) => Val::C(k.count_ones() as u64), None => { let e = v.e(w); let mut r = konst(0, w); for i in 0..w { let bit = extract(e, i, 1); r = bin(Op::Add, r, if w == 1 { bit } else { zext(bit, w) }) } Val::of(r) } } }
            Bi::IBswap => { let e = a!(0).e(w); let mut r = extract(e, 0, 8); for i in 1..w / 8 { r = concat(r, extract(e, i * 8, 8)) } Val::of(r) }
            Bi::IBitrev => { let e = a!(0).e(w); let mut r = extract(e, 0, 1); for i in 1..w { r = concat(r, extract(e, i, 1)) } Val::of(r) }
            Bi::IFshl | Bi::IFshr if matches!(a!(0), Val::Agg(_)) => {
                let (Val::Agg(x), Val::Agg(y), z) = (a!(0), a!(1), a!(2)) else { panic!() };
                let w = c.ret.field(0).1.bits();
                let mut o = vec![];
                for i in 0..x.len() {
                    let zk = match &z { Val::Agg(z) => z[i].k(), v => v.k() };
                    let Some(k) = zk else { return self.unsupported("vector funnel shift by a symbolic amount") };
                    let (p, q) = (x[i].e(w), y[i].e(w));
                    let k = (k % w as u128) as u16; let k = if b == Bi::IFshl { k } else { (w - k) % w };
                    o.push(if k == 0 { Val::of(if b == Bi::IFshl { p } else { q }) } else { Val::of(concat(extract(p, 0, w - k), extract(q, w - k, k))) });
                }
                Val::Agg(Rc::new(o))
            }
            Bi::IFshl | Bi::IFshr => {
                let (x, y, z) = (a!(0).e(w), a!(1).e(w), a!(2));
                match z.k() {
                    Some(k) => { let k = (k % w as u128) as u16; let k = if b == Bi::IFshl { k } else { (w - k) % w }; 
                        if k == 0 { return Ok(Val::of(if b == Bi::IFshl { x } else { y })); }
                        Val::of(concat(extract(x, 0, w - k), extract(y, w - k, k))) }
                    None => {
                        let z = bin(Op::URem, z.e(w), konst(w as u128, w));
                        let inv = bin(Op::Sub, konst(w as u128, w), z);
                        Val::of(if b == Bi::IFshl { bin(Op::Or, bin(Op::Shl, x, z), bin(Op::LShr, y, inv)) } else { bin(Op::Or, bin(Op::LShr, y, z), bin(Op::Shl, x, inv)) })
                    }
                }
            }
            Bi::IAbs => { let e = a!(0).e(w); Val::of(ite(extract(e, w - 1, 1), bin(Op::Sub, konst(0, w), e), e)) }
            Bi::IUCmp | Bi::ISCmp => { let aw = c.tys[0].bits(); let (x, y) = (a!(0).e(aw), a!(1).e(aw)); let lt = if b == Bi::IUCmp { ult(x, y) } else { slt(x, y) }; Val::of(ite(lt, konst(mask(w), w), ite(eq(x, y), konst(0, w), konst(1, w)))) }
            Bi::IFabs => { let e = a!(0).e(w); Val::of(concat(konst(0, 1), extract(e, 0, w - 1))) }
            Bi::ICopysign => { let (x, y) = (a!(0).e(w), a!(1).e(w)); Val::of(concat(extract(y, w - 1, 1), extract(x, 0, w - 1))) }
            Bi::IFpSat => {
                let name = self.m.fns[fid as usize].name; let signed = name.contains("fptosi");
                let Some(x) = a!(0).k() else { return self.unsupported("symbolic floating-point conversion") };
                let d = if *c.tys[0] == Ty::F64 { f64::from_bits(x as u64) } else { f32::from_bits(x as u32) as f64 };
                let v = if signed { let lim = 1i128 << (w - 1); (d as i128).clamp(-lim, lim - 1) as u128 } else { (d as u128).min(mask(w)) };
                Val::C((v & mask(w)) as u64)
            }
            Bi::IFloor | Bi::ICeil | Bi::ITrunc | Bi::IRound | Bi::ISqrt => {
                let Some(x) = a!(0).k() else { return self.unsupported("symbolic floating-point arithmetic") };
                let f = |d: f64| match b { Bi::IFloor => d.floor(), Bi::ICeil => d.ceil(), Bi::ITrunc => d.trunc(), Bi::IRound => d.round(), _ => d.sqrt() };
                if w == 64 { Val::C(f(f64::from_bits(x as u64)).to_bits()) } else { Val::C((f(f32::from_bits(x as u32) as f64) as f32).to_bits() as u64) }
            }
            Bi::IRed => {
                let name = self.m.fns[fid as usize].name;
                let Val::Agg(x) = a!(0) else { panic!() };
                let w = c.ret.bits();
                let mut r: Option<E> = None;
                for v in x.iter() { let e = v.e(w); r = Some(match r { None => e, Some(r) => if name.contains("reduce.add") { bin(Op::Add, r, e) } else if name.contains("reduce.and") { bin(Op::And, r, e) } else if name.contains("reduce.or") { bin(Op::Or, r, e) } else if name.contains("reduce.xor") { bin(Op::Xor, r, e) } else if name.contains("reduce.umax") { ite(ult(r, e), e, r) } else if name.contains("reduce.umin") { ite(ult(r, e), r, e) } else { return self.unsupported(name.to_string()) } }) }
                Val::of(r.unwrap())
            }
            Bi::IFma | Bi::IMinnum | Bi::IMaxnum => return self.unsupported("floating-point intrinsic"),
            Bi::DInit | Bi::IInit => { let p = ac!(0); self.z_init(s, p)?; Val::C(0) }
            Bi::DRun => { let p = ac!(0); let fl = ac!(1); Val::C(self.z_deflate(s, p, fl)?) }
            Bi::IRun => { let p = ac!(0); Val::C(self.z_inflate(s, p)?) }
            Bi::DEnd | Bi::IEnd => { let p = ac!(0); s.zs.retain(|z| z.0 != p); self.write_scalar(s, p + 56, 64, &Val::C(0))?; Val::C(0) }
            Bi::ZReset => { let p = ac!(0); self.z_init(s, p)?; Val::C(0) }
            Bi::None | Bi::Unset => unreachable!(),
        })
    }
    fn choose(&mut self, s: &mut State, v: u64) { s.choices.push(v); for b in v.to_le_bytes() { s.inputs.push(InB::Byte(b)); } }

    // ---------- zlib model: streams of stored blocks ----------
    // z_stream: next_in@0 avail_in@8(u32) total_in@16 next_out@24 avail_out@32(u32) total_out@40 msg@48 state@56 ... adler@96
    fn z_init(&mut self, s: &mut State, p: u64) -> R<()> {
        let st = self.alloc(s, 1 << 20);
        s.zs.retain(|z| z.0 != p);
        s.zs.push((p, st));
        self.write_scalar(s, p + 56, 64, &Val::C(st))?;
        self.write_scalar(s, p + 16, 64, &Val::C(0))?;
        self.write_scalar(s, p + 40, 64, &Val::C(0))?;
        Ok(())
    }
    fn zs_of(&self, s: &State, p: u64) -> Option<u64> { s.zs.iter().rev().find(|z| z.0 == p).map(|z| z.1) }
    fn zrd(&mut self, s: &mut State, a: u64, w: u16) -> R<u64> { let v = self.read_scalar(s, a, w)?; self.cv(s, &v) }
    /// internal buffer layout: 0: input length so far, 8: output emitted, 16: finished flag, 64..: input bytes
    fn z_deflate(&mut self, s: &mut State, p: u64, flush: u64) -> R<u64> {
        let Some(st) = self.zs_of(s, p) else { return Ok(0xffff_fffe) };
        let (ni, ai) = (self.zrd(s, p, 64)?, self.zrd(s, p + 8, 32)?);
        let mut len = self.zrd(s, st, 64)?;
        if ai > 0 { if 64 + len + ai > 1 << 20 { return self.unsupported("zlib model capacity"); } self.copy(s, st + 64 + len, ni, ai)?; len += ai; }
        self.write_scalar(s, st, 64, &Val::C(len))?;
        self.write_scalar(s, p, 64, &Val::C(ni + ai))?; self.write_scalar(s, p + 8, 32, &Val::C(0))?;
        let ti = self.zrd(s, p + 16, 64)?; self.write_scalar(s, p + 16, 64, &Val::C(ti + ai))?;
        if flush != 4 { return Ok(if ai == 0 { 0xffff_fffb } else { 0 }); }
        // whole stream: 78 01, stored blocks, adler
        let data = self.read_bytes(s, st + 64, len)?;
        let mut out: Vec<Val> = vec![Val::C(0x78), Val::C(0x01)];
        let mut i = 0usize;
        loop {
            let k = (data.len() - i).min(65535); let last = i + k == data.len();
            out.push(Val::C(last as u64)); let l = k as u16; for b in l.to_le_bytes() { out.push(Val::C(b as u64)) } for b in (!l).to_le_bytes() { out.push(Val::C(b as u64)) }
            out.extend_from_slice(&data[i..i + k]); i += k;
            if last { break; }
        }
        let ad = adler(&data);
        for k in (0..4).rev() { out.push(Val::of(extract(ad, k * 8, 8))); }
        let done = self.zrd(s, st + 8, 64)? as usize;
        let (no, ao) = (self.zrd(s, p + 24, 64)?, self.zrd(s, p + 32, 32)? as usize);
        let k = (out.len() - done).min(ao);
        self.write_bytes(s, no, &out[done..done + k])?;
        self.write_scalar(s, st + 8, 64, &Val::C((done + k) as u64))?;
        self.write_scalar(s, p + 24, 64, &Val::C(no + k as u64))?; self.write_scalar(s, p + 32, 32, &Val::C((ao - k) as u64))?;
        let to = self.zrd(s, p + 40, 64)?; self.write_scalar(s, p + 40, 64, &Val::C(to + k as u64))?;
        Ok(if done + k == out.len() { 1 } else { 0 })
    }
    fn z_inflate(&mut self, s: &mut State, p: u64) -> R<u64> {
        // state: 0: phase (0 header, 1 block header, 2 stored data, 3 trailer, 4 done, 5 error), 8: bytes left in block, 16: last flag, 24: position in header, 64..: decoded bytes count at 32
        let Some(st) = self.zs_of(s, p) else { return Ok(0xffff_fffe) };
        let (mut ni, mut ai) = (self.zrd(s, p, 64)?, self.zrd(s, p + 8, 32)?);
        let (mut no, mut ao) = (self.zrd(s, p + 24, 64)?, self.zrd(s, p + 32, 32)?);
        let (ni0, no0) = (ni, no);
        let mut ph = self.zrd(s, st, 64)?; let mut left = self.zrd(s, st + 8, 64)?; let mut last = self.zrd(s, st + 16, 64)?; let mut hp = self.zrd(s, st + 24, 64)?;
        let mut tot = self.zrd(s, st + 32, 64)?;
        let mut hdr: [Val; 8] = Default::default();
        for i in 0..8 { hdr[i] = self.read_scalar(s, st + 40 + i as u64, 8)?; }
        let mut ret = 0u64;
        // all decisions are made before any write, so a retry re-executes cleanly
        let mut writes: Vec<(u64, Val)> = vec![];
        let mut decoded: Vec<Val> = vec![];
        loop {
            match ph {
                0 | 1 | 3 => {
                    let need = match ph { 0 => 2, 1 => 5, _ => 4 };
                    while hp < need && ai > 0 { hdr[hp as usize] = self.read_scalar(s, ni, 8)?; ni += 1; ai -= 1; hp += 1; }
                    if hp < need { break; }
                    hp = 0;
                    match ph {
                        0 => {
                            let v = concat(hdr[0].e(8), hdr[1].e(8));
                            let ok = eq(v, konst(0x7801, 16));
                            if !self.decide(s, ok)? { ph = 5; 
                                // other valid zlib headers are outside the model
                                continue; }
                            ph = 1;
                        }
                        1 => {
                            let b0 = hdr[0].e(8);
                            let typ = extract(b0, 1, 2);
                            let st0 = eq(typ, konst(0, 2));
                            if !self.decide(s, st0)? { let bad = eq(typ, konst(3, 2)); if self.decide(s, bad)? { ph = 5; continue; } return Err(Stop::End(End::Limit("compressed (non-stored) zlib block outside the model".into()))); }
                            let l = concat(hdr[2].e(8), hdr[1].e(8)); let nl = concat(hdr[4].e(8), hdr[3].e(8));
                            let ok = eq(l, bin(Op::Xor, nl, konst(0xffff, 16)));
                            if !self.decide(s, ok)? { ph = 5; continue; }
                            last = self.concretize(s, extract(b0, 0, 1))? as u64;
                            left = self.concretize(s, l)? as u64;
                            ph = 2;
                        }
                        _ => {
                            let got = concat(concat(hdr[0].e(8), hdr[1].e(8)), concat(hdr[2].e(8), hdr[3].e(8)));
                            let mut all = self.read_bytes(s, st + 64, tot)?; all.extend(decoded.iter().cloned());
                            let ok = eq(got, adler(&all));
                            if !self.decide(s, ok)? { ph = 5; continue; }
                            ph = 4;
                        }
                    }
                }
                2 => {
                    while left > 0 && ai > 0 && ao > 0 { let b = self.read_scalar(s, ni, 8)?; writes.push((no, b.clone())); decoded.push(b); ni += 1; ai -= 1; no += 1; ao -= 1; left -= 1; }
                    if left > 0 { break; }
                    ph = if last != 0 { 3 } else { 1 };
                }
                4 => { ret = 1; break; }
                _ => { ret = 0xffff_fffd; break; }
            }
        }
        for (a, v) in &writes { self.write_scalar(s, *a, 8, v)?; }
        for (i, v) in decoded.iter().enumerate() { self.write_scalar(s, st + 64 + tot + i as u64, 8, v)?; }
        tot += decoded.len() as u64;
        for (o, v) in [(0, ph), (8, left), (16, last), (24, hp), (32, tot)] { self.write_scalar(s, st + o, 64, &Val::C(v))?; }
        for i in 0..8 { self.write_scalar(s, st + 40 + i as u64, 8, &hdr[i])?; }
        self.write_scalar(s, p, 64, &Val::C(ni))?; self.write_scalar(s, p + 8, 32, &Val::C(ai))?;
        self.write_scalar(s, p + 24, 64, &Val::C(no))?; self.write_scalar(s, p + 32, 32, &Val::C(ao))?;
        let ti = self.zrd(s, p + 16, 64)?; self.write_scalar(s, p + 16, 64, &Val::C(ti + (ni - ni0)))?;
        let to = self.zrd(s, p + 40, 64)?; self.write_scalar(s, p + 40, 64, &Val::C(to + (no - no0)))?;
        if ret == 0 && ni == ni0 && no == no0 { ret = 0xffff_fffb; }
        Ok(ret)
    }
}
impl Default for Val { fn default() -> Val { Val::C(0) } }
/// arbitrary but fixed bytes for a tuple of expressions (stands for a hash of them)
fn pseudo(k: &[Val], n: usize) -> Vec<u8> {
    let mut x = 0x9e3779b97f4a7c15u64;
    for v in k { x ^= v.e(8) as u64 + 1; x = x.wrapping_mul(0xff51afd7ed558ccd); x ^= x >> 29; }
    (0..n).map(|_| { x = x.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407); (x >> 40) as u8 }).collect()
}
fn adler(d: &[Val]) -> E {
    if d.iter().any(|v| v.k().is_none()) { return konst(u32::from_le_bytes(pseudo(d, 4).try_into().unwrap()) as u128, 32); }
    let w = 32; let m = konst(65521, w);
    let (mut a, mut b) = (konst(1, w), konst(0, w));
    for v in d { a = bin(Op::Add, a, zext(v.e(8), w)); if range(a).1 >= 65521 { a = bin(Op::URem, a, m) } b = bin(Op::Add, b, a); if range(b).1 >= 65521 { b = bin(Op::URem, b, m) } }
    concat(extract(b, 0, 16), extract(a, 0, 16))
}
fn q_const(p: E, q: E) -> Option<(E, u128)> { if let Some(k) = as_const(q) { Some((p, k)) } else { as_const(p).map(|k| (q, k)) } }
fn low_zero_bits(e: E) -> u32 {
    let nd = n(e);
    match nd.op {
        Op::Const => if nd.k == 0 { nd.w as u32 } else { nd.k.trailing_zeros() },
        Op::Concat => { let lw = width(nd.b) as u32; let z = low_zero_bits(nd.b); if z < lw { z } else { lw + low_zero_bits(nd.a) } }
        Op::Add | Op::Sub | Op::Or | Op::Xor => low_zero_bits(nd.a).min(low_zero_bits(nd.b)),
        Op::Mul => (low_zero_bits(nd.a) + low_zero_bits(nd.b)).min(nd.w as u32),
        Op::And => low_zero_bits(nd.a).max(low_zero_bits(nd.b)),
        Op::Ite => low_zero_bits(nd.b).min(low_zero_bits(nd.c)),
        _ => 0,
    }
}
/// table lookup; tables that are affine over GF(2) (CRC tables) become XORs of their basis
fn mux(idx: E, nbits: u16, vals: &[E]) -> E {
    if vals.len() >= 16 && vals.len() == 1usize << nbits {
        let k: Option<Vec<u128>> = vals.iter().map(|e| as_const(*e)).collect();
        if let Some(k) = k {
            let w = width(vals[0]);
            if (1..k.len()).all(|i| { let l = i & i.wrapping_neg(); i == l || k[i] ^ k[0] == (k[i ^ l] ^ k[0]) ^ (k[l] ^ k[0]) }) {
                let mut r = konst(k[0], w);
                for b in 0..nbits { r = bin(Op::Xor, r, ite(extract(idx, b, 1), konst(k[1 << b] ^ k[0], w), konst(0, w))); }
                return r;
            }
        }
    }
    mux_tree(idx, nbits, vals)
}
fn mux_tree(idx: E, nbits: u16, vals: &[E]) -> E {
    if vals.len() == 1 || nbits == 0 { return vals[0]; }
    let half = 1usize << (nbits - 1);
    if vals.len() <= half { return mux_tree(idx, nbits - 1, vals); }
    let lo = mux_tree(idx, nbits - 1, &vals[..half]);
    let hi = mux_tree(idx, nbits - 1, &vals[half..]);
    ite(extract(idx, nbits - 1, 1), hi, lo)
}
fn ins(v: Val, ix: &[u64], x: Val) -> Val {
    if ix.is_empty() { return x; }
    let Val::Agg(mut a) = v else { panic!() };
    let i = ix[0] as usize;
    let inner = a[i].clone();
    Rc::make_mut(&mut a)[i] = ins(inner, &ix[1..], x);
    Val::Agg(a)
}
#[inline]
fn bin_cc(op: Op, w: u16, x: u64, y: u64) -> Val {
    let m = if w == 64 { u64::MAX } else { (1u64 << w) - 1 };
    Val::C(match op {
        Op::Add => x.wrapping_add(y) & m, Op::Sub => x.wrapping_sub(y) & m, Op::Mul => x.wrapping_mul(y) & m,
        Op::And => x & y, Op::Or => x | y, Op::Xor => x ^ y,
        Op::Shl => if y >= w as u64 { 0 } else { (x << y) & m }, Op::LShr => if y >= w as u64 { 0 } else { x >> y },
        Op::UDiv if y != 0 => x / y, Op::URem if y != 0 => x % y,
        _ => fold(op, w, x as u128, y as u128) as u64,
    })
}
fn bin_v(op: Op, w: u16, a: &Val, b: &Val) -> Val {
    if let (Val::C(x), Val::C(y), true) = (a, b, w <= 64) { return bin_cc(op, w, *x, *y); }
    Val::of(bin(op, a.e(w), b.e(w)))
}
fn icmp(p: Pred, w: u16, a: &Val, b: &Val) -> Val {
    if let (Val::C(x), Val::C(y)) = (a, b) {
        let (sx_, sy) = (((*x << (64 - w)) as i64), ((*y << (64 - w)) as i64));
        return Val::C(match p { Pred::Eq => x == y, Pred::Ne => x != y, Pred::Ugt => x > y, Pred::Uge => x >= y, Pred::Ult => x < y, Pred::Ule => x <= y, Pred::Sgt => sx_ > sy, Pred::Sge => sx_ >= sy, Pred::Slt => sx_ < sy, Pred::Sle => sx_ <= sy } as u64);
    }
    let (x, y) = (a.e(w), b.e(w));
    Val::of(match p { Pred::Eq => eq(x, y), Pred::Ne => not(eq(x, y)), Pred::Ugt => ult(y, x), Pred::Uge => not(ult(x, y)), Pred::Ult => ult(x, y), Pred::Ule => not(ult(y, x)), Pred::Sgt => slt(y, x), Pred::Sge => not(slt(x, y)), Pred::Slt => slt(x, y), Pred::Sle => not(slt(y, x)) })
}
fn ext(k: CastK, w: u16, w2: u16, v: &Val) -> Val {
    match (k, v) {
        (CastK::Trunc, Val::C(x)) => Val::C(x & mask(w2) as u64),
        (CastK::ZExt, Val::C(x)) if w2 <= 64 => Val::C(*x),
        (CastK::Trunc, _) => Val::of(extract(v.e(w), 0, w2)),
        (CastK::ZExt, _) => Val::of(zext(v.e(w), w2)),
        _ => Val::of(sext(v.e(w), w2)),
    }
}
/// exact widening of binary32 to binary64 (NaNs become quiet)
fn fpext(x: E) -> E {
    let (sgn, ex, m) = (extract(x, 31, 1), extract(x, 23, 8), extract(x, 0, 23));
    let pack = |e: E, m52: E| concat(sgn, concat(e, m52));
    let wide = concat(m, konst(0, 29));
    let normal = pack(bin(Op::Add, zext(ex, 11), konst(896, 11)), wide);
    let special = pack(konst(2047, 11), ite(eq(m, konst(0, 23)), wide, bin(Op::Or, wide, konst(1 << 51, 52))));
    let mut sub = pack(konst(0, 11), konst(0, 52));
    // leading one at bit i of the subnormal mantissa
    for i in 0..23u16 {
        let frac = if i == 0 { konst(0, 52) } else { concat(extract(m, 0, i), konst(0, 52 - i)) };
        sub = ite(extract(m, i, 1), pack(konst((896 - 22 + i) as u128, 11), frac), sub);
    }
    ite(eq(ex, konst(255, 8)), special, ite(eq(ex, konst(0, 8)), sub, normal))
}
fn fcmp(p: &str, w: u16, a: E, b: E) -> E {
    let (eb, mb) = if w == 64 { (11u16, 52u16) } else { (8, 23) };
    let nan = |x: E| and(eq(extract(x, mb, eb), konst(mask(eb), eb)), not(eq(extract(x, 0, mb), konst(0, mb))));
    let un = or(nan(a), nan(b));
    let (ma, mbb) = (extract(a, 0, w - 1), extract(b, 0, w - 1));
    let (sa, sb) = (extract(a, w - 1, 1), extract(b, w - 1, 1));
    let bothz = and(eq(ma, konst(0, w - 1)), eq(mbb, konst(0, w - 1)));
    let equal = or(eq(a, b), bothz);
    // a < b (no NaN)
    let lt = |ma: E, mb_: E, sa: E, sb: E| ite(sa, ite(sb, ult(mb_, ma), not(bothz)), ite(sb, fls(), ult(ma, mb_)));
    let l = lt(ma, mbb, sa, sb);
    let g = lt(mbb, ma, sb, sa);
    let r = match &p[1..] { "eq" => equal, "ne" => not(equal), "lt" => l, "gt" => g, "le" => or(l, equal), "ge" => or(g, equal), _ => tru() };
    match p { "ord" => not(un), "uno" => un, "true" => tru(), "false" => fls(), _ => if p.starts_with('o') { and(not(un), r) } else { or(un, r) } }
}
/// k = 20 bytes of state (little-endian words) then a 64 byte block
fn sha1_block(k: &[u8]) -> Vec<u8> {
    let mut h: Vec<u32> = k[..20].chunks(4).map(|c| u32::from_le_bytes(c.try_into().unwrap())).collect();
    let mut w: Vec<u32> = k[20..].chunks(4).map(|c| u32::from_be_bytes(c.try_into().unwrap())).collect();
    for i in 16..80 { let x = (w[i - 3] ^ w[i - 8] ^ w[i - 14] ^ w[i - 16]).rotate_left(1); w.push(x) }
    let (mut a, mut b, mut c, mut d, mut e) = (h[0], h[1], h[2], h[3], h[4]);
    for i in 0..80 {
        let (f, q) = match i / 20 { 0 => ((b & c) | (!b & d), 0x5A827999u32), 1 => (b ^ c ^ d, 0x6ED9EBA1), 2 => ((b & c) | (b & d) | (c & d), 0x8F1BBCDC), _ => (b ^ c ^ d, 0xCA62C1D6) };
        let t = a.rotate_left(5).wrapping_add(f).wrapping_add(e).wrapping_add(q).wrapping_add(w[i]);
        e = d; d = c; c = b.rotate_left(30); b = a; a = t;
    }
    for (x, y) in h.iter_mut().zip([a, b, c, d, e]) { *x = x.wrapping_add(y) }
    h.iter().flat_map(|x| x.to_le_bytes()).collect()
}
/// system functions a harness may define itself
const OS: [&str; 14] = ["exit", "close", "write", "writev", "open64", "open", "stat64", "lstat64", "statx", "fstat64", "readlink", "realpath", "getcwd", "getenv"];
fn classify(nm: &str) -> Bi {
    if let Some(i) = nm.strip_prefix("llvm.") {
        let t = [("memcpy", Bi::Memcpy), ("memmove", Bi::Memcpy), ("memset", Bi::Memset), ("umax.", Bi::IUMax), ("umin.", Bi::IUMin), ("smax.", Bi::ISMax), ("smin.", Bi::ISMin), ("uadd.sat", Bi::IUAddSat), ("usub.sat", Bi::IUSubSat), ("sadd.sat", Bi::ISAddSat), ("ssub.sat", Bi::ISSubSat),
            ("uadd.with", Bi::IUAddO), ("usub.with", Bi::IUSubO), ("umul.with", Bi::IUMulO), ("sadd.with", Bi::ISAddO), ("ssub.with", Bi::ISSubO), ("smul.with", Bi::ISMulO), ("ctlz", Bi::ICtlz), ("cttz", Bi::ICttz), ("ctpop", Bi::ICtpop), ("bswap", Bi::IBswap), ("bitreverse", Bi::IBitrev), ("fshl", Bi::IFshl), ("fshr", Bi::IFshr), ("abs.", Bi::IAbs),
            ("is.constant", Bi::IIsConst), ("expect", Bi::IExpect), ("ucmp", Bi::IUCmp), ("scmp", Bi::ISCmp), ("threadlocal", Bi::ITls), ("trap", Bi::ITrap), ("fabs", Bi::IFabs), ("fptosi.sat", Bi::IFpSat), ("fptoui.sat", Bi::IFpSat), ("copysign", Bi::ICopysign), ("floor", Bi::IFloor), ("ceil", Bi::ICeil), ("trunc", Bi::ITrunc), ("round", Bi::IRound), ("sqrt", Bi::ISqrt), ("vector.reduce", Bi::IRed), ("fma", Bi::IFma), ("fmuladd", Bi::IFma), ("minnum", Bi::IMinnum), ("maxnum", Bi::IMaxnum), ("ssa.copy", Bi::ISsaCopy), ("objectsize", Bi::ObjSize)];
        for (p, b) in t { if i.starts_with(p) { return b; } }
        return Bi::None;
    }
    match nm {
        "sym_bytes" => Bi::SymBytes, "sym_assume" => Bi::SymAssume, "sym_check" => Bi::SymCheck, "sym_choice" => Bi::SymChoice, "sym_observe" => Bi::SymObserve, "sym_reach" => Bi::SymReach, "sym_opt" => Bi::SymOpt, "sym_concrete" => Bi::SymConcrete, "sym_done" => Bi::Exit, "sym_init_fn" => Bi::InitFn,
        "malloc" => Bi::Malloc, "calloc" => Bi::Calloc, "realloc" => Bi::Realloc, "posix_memalign" => Bi::Memalign, "free" => Bi::Free,
        "memcpy" | "memmove" => Bi::Memcpy, "memset" => Bi::Memset, "memcmp" | "bcmp" => Bi::Memcmp, "strlen" => Bi::Strlen,
        "abort" => Bi::Abort, "exit" | "_exit" => Bi::Exit, "getenv" | "pthread_setspecific" | "pthread_key_create" | "pthread_key_delete" | "pthread_getspecific" | "pthread_self" | "gettid" | "clock_gettime" | "close" | "sched_yield" | "pthread_atfork" => Bi::Zero,
        "__cxa_thread_atexit_impl" => Bi::Cxa, "__errno_location" => Bi::Errno, "write" => Bi::Write, "writev" => Bi::MinusOne, "syscall" => Bi::Syscall, "getrandom" => Bi::GetRandom, "zlibVersion" => Bi::ZVersion,
        "open64" | "open" | "stat64" | "lstat64" | "statx" | "fstat64" | "readlink" | "realpath" => Bi::MinusOne,
        "deflateInit2_" | "deflateInit_" => Bi::DInit, "deflate" => Bi::DRun, "deflateEnd" => Bi::DEnd, "inflateInit2_" | "inflateInit_" => Bi::IInit, "inflate" => Bi::IRun, "inflateEnd" => Bi::IEnd, "deflateReset" | "inflateReset" | "inflateReset2" => Bi::ZReset,
        _ => {
            if nm.ends_with("4core9panicking9panic_fmt") || nm.ends_with("3std9panicking15panic_with_hook") { return if nm.contains("panic_fmt") { Bi::PanicFmt } else { Bi::NounwindFmt }; }
            if nm.contains("4core9panicking18panic_nounwind_fmt") || nm.contains("4core9panicking26panic_nounwind_nobacktrace") || nm.contains("___rust_alloc_error_handler") || nm.contains("3std7process5abort") { return Bi::NounwindFmt; }
            if nm.ends_with("3std2io5stdio6__print") || nm.ends_with("3std2io5stdio7__eprint") || nm.ends_with("3std2io5stdio6_print") || nm.ends_with("3std2io5stdio7_eprint") { return Bi::Print; }
            if nm.ends_with("14naive_cityhash10cityhash64") || nm.ends_with("14naive_cityhash13hash_len0to16") || nm.ends_with("14naive_cityhash14hash_len17to32") || nm.ends_with("14naive_cityhash14hash_len33to64") { return Bi::City; }
            if nm.ends_with("4sha18compress8compress") { return Bi::Sha1; }
            if nm.contains("5alloc3fmt6format12format_inner") { return Bi::FormatInner; }
            if nm.starts_with("_R") && nm.contains("7___rustc") {
                if nm.ends_with("12___rust_alloc") { return Bi::RAlloc; }
                if nm.ends_with("19___rust_alloc_zeroed") { return Bi::RAllocZ; }
                if nm.ends_with("14___rust_realloc") { return Bi::RRealloc; }
                if nm.ends_with("14___rust_dealloc") { return Bi::RDealloc; }
            }
            Bi::None
        }
    }
}
