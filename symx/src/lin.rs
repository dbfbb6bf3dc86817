//! Rewrites equalities between XOR-linear expressions (checksums) to equalities of their bit-wise GF(2) normal forms.
//! The result is logically equivalent; what is left is decided by the SMT solver.
use crate::expr::*;
use std::rc::Rc;
type B = Rc<(Vec<E>, bool)>; // XOR of one-bit atoms and a constant
#[derive(Default)]
pub struct Lin { memo: FxMap<(E, u16), B>, xors: FxMap<E, bool>, done: FxMap<E, E> }
fn k(b: bool) -> B { Rc::new((vec![], b)) }
fn xor(a: &B, b: &B) -> B {
    if a.0.is_empty() && !a.1 { return b.clone(); }
    if b.0.is_empty() && !b.1 { return a.clone(); }
    let (mut i, mut j, mut r) = (0, 0, Vec::with_capacity(a.0.len() + b.0.len()));
    while i < a.0.len() || j < b.0.len() {
        if j == b.0.len() || (i < a.0.len() && a.0[i] < b.0[j]) { r.push(a.0[i]); i += 1 }
        else if i == a.0.len() || b.0[j] < a.0[i] { r.push(b.0[j]); j += 1 }
        else { i += 1; j += 1 }
    }
    Rc::new((r, a.1 ^ b.1))
}
fn is_k(b: &B) -> Option<bool> { if b.0.is_empty() { Some(b.1) } else { None } }
impl Lin {
    fn bit(&mut self, e: E, i: u16) -> B {
        if let Some(b) = self.memo.get(&(e, i)) { return b.clone(); }
        let nd = n(e);
        let sh = |b: E| as_const(b).map(|x| x.min(1000) as u16);
        let r: Option<B> = match nd.op {
            Op::Const => Some(k(nd.k >> i & 1 == 1)),
            Op::Xor => { let (a, b) = (self.bit(nd.a, i), self.bit(nd.b, i)); Some(xor(&a, &b)) }
            Op::Concat => { let lw = width(nd.b); Some(if i < lw { self.bit(nd.b, i) } else { self.bit(nd.a, i - lw) }) }
            Op::Extract => { if n(nd.a).op == Op::Var { None } else { Some(self.bit(nd.a, i + nd.k as u16)) } }
            Op::SExt => { let w = width(nd.a); Some(self.bit(nd.a, i.min(w - 1))) }
            Op::Shl => sh(nd.b).map(|s| if i < s { k(false) } else { self.bit(nd.a, i - s) }),
            Op::LShr => sh(nd.b).map(|s| if i + s >= nd.w { k(false) } else { self.bit(nd.a, i + s) }),
            Op::AShr => sh(nd.b).map(|s| self.bit(nd.a, (i + s).min(nd.w - 1))),
            Op::And => { let (a, b) = (self.bit(nd.a, i), self.bit(nd.b, i)); match (is_k(&a), is_k(&b)) { (Some(false), _) | (_, Some(false)) => Some(k(false)), (Some(true), _) => Some(b), (_, Some(true)) => Some(a), _ => if a == b { Some(a) } else { None } } }
            Op::Or => { let (a, b) = (self.bit(nd.a, i), self.bit(nd.b, i)); match (is_k(&a), is_k(&b)) { (Some(true), _) | (_, Some(true)) => Some(k(true)), (Some(false), _) => Some(b), (_, Some(false)) => Some(a), _ => if a == b { Some(a) } else { None } } }
            Op::Ite => { let (t, f) = (self.bit(nd.b, i), self.bit(nd.c, i)); let d = xor(&t, &f); match is_k(&d) { Some(false) => Some(t), Some(true) => { let c = self.bit(nd.a, 0); Some(xor(&c, &f)) } None => None } }
            Op::Mul => { let (a, c) = if as_const(nd.a).is_some() { (nd.b, nd.a) } else { (nd.a, nd.b) }; match as_const(c) { Some(c) if range(a).1 <= 1 => Some(if c >> i & 1 == 1 { self.bit(a, 0) } else { k(false) }), _ => None } }
            Op::Sub if as_const(nd.a) == Some(0) && range(nd.b).1 <= 1 => Some(self.bit(nd.b, 0)),
            _ => None,
        };
        let r = r.unwrap_or_else(|| {
            let x = if nd.w == 1 { e } else { extract(e, i, 1) };
            let nx = n(x);
            if x != e && !(nx.op == Op::Extract) { self.bit(x, 0) } else { Rc::new((vec![x], false)) }
        });
        self.memo.insert((e, i), r.clone());
        r
    }
    /// does e contain a real (non-negation) XOR?
    fn has_xor(&mut self, e: E, d: u32) -> bool {
        if let Some(b) = self.xors.get(&e) { return *b; }
        if d == 0 { return false; }
        let nd = n(e);
        let r = match nd.op {
            Op::Const | Op::Var => false,
            Op::Xor if nd.w > 1 && as_const(nd.b).is_none() => true,
            Op::Extract | Op::SExt => self.has_xor(nd.a, d - 1),
            Op::Ite => self.has_xor(nd.b, d - 1) || self.has_xor(nd.c, d - 1),
            _ => self.has_xor(nd.a, d - 1) || self.has_xor(nd.b, d - 1),
        };
        self.xors.insert(e, r);
        r
    }
    pub fn simplify(&mut self, e: E) -> E {
        if let Some(r) = self.done.get(&e) { return *r; }
        let nd = n(e);
        let r = match nd.op {
            Op::And | Op::Or | Op::Xor if nd.w == 1 => { let (a, b) = (self.simplify(nd.a), self.simplify(nd.b)); if a == nd.a && b == nd.b { e } else { bin(nd.op, a, b) } }
            Op::Eq if width(nd.a) > 1 && width(nd.a) <= 64 && self.has_xor(nd.a, 12) && self.has_xor(nd.b, 12) => {
                let mut r = tru();
                for i in 0..width(nd.a) {
                    let d = { let (a, b) = (self.bit(nd.a, i), self.bit(nd.b, i)); xor(&a, &b) };
                    let mut x = if d.1 { fls() } else { tru() };
                    for a in &d.0 { x = bin(Op::Xor, x, *a); }
                    r = and(r, x);
                    if as_const(r) == Some(0) { break; }
                }
                r
            }
            _ => e,
        };
        self.done.insert(e, r);
        r
    }
}
