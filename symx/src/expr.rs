//! Hash-consed bit-vector expressions (widths 1..=128 for constants) with local simplification.
#![allow(static_mut_refs)]
use std::collections::HashMap;
use std::hash::{BuildHasherDefault, Hasher};
use std::rc::Rc;

#[derive(Default, Clone)]
pub struct Fx(u64);
impl Hasher for Fx {
    fn write(&mut self, b: &[u8]) { for &x in b { self.write_u64(x as u64) } }
    fn write_u8(&mut self, x: u8) { self.write_u64(x as u64) }
    fn write_u16(&mut self, x: u16) { self.write_u64(x as u64) }
    fn write_u32(&mut self, x: u32) { self.write_u64(x as u64) }
    fn write_u64(&mut self, x: u64) { self.0 = (self.0.rotate_left(5) ^ x).wrapping_mul(0x517cc1b727220a95); }
    fn write_usize(&mut self, x: usize) { self.write_u64(x as u64) }
    fn write_u128(&mut self, x: u128) { self.write_u64(x as u64); self.write_u64((x >> 64) as u64) }
    fn finish(&self) -> u64 { self.0 }
}
pub type FxMap<K, V> = HashMap<K, V, BuildHasherDefault<Fx>>;
pub type FxSet<K> = std::collections::HashSet<K, BuildHasherDefault<Fx>>;

pub type E = u32;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
#[repr(u8)]
pub enum Op { Const, Var, Add, Sub, Mul, UDiv, SDiv, URem, SRem, And, Or, Xor, Shl, LShr, AShr, Concat, Extract, SExt, Eq, Ult, Slt, Ite,
    /// exact widening of a binary32 (a) to binary64, with its bit-level definition (b): kept whole so that narrowing undoes it
    Wide }

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub struct Node { pub op: Op, pub w: u16, pub a: E, pub b: E, pub c: E, pub k: u128 }

pub struct Ctx {
    pub nodes: Vec<Node>,
    pub lo: Vec<u128>,
    pub hi: Vec<u128>,
    pub map: FxMap<Node, E>,
    pub vars: FxMap<E, Rc<Vec<u64>>>, // variable bitsets
    pub nvars: u32,
}
static mut CTX: Option<Ctx> = None;
#[inline(always)]
pub fn ctx() -> &'static mut Ctx { unsafe { CTX.as_mut().unwrap_unchecked() } }
pub fn init() {
    unsafe {
        CTX = Some(Ctx { nodes: vec![], lo: vec![], hi: vec![], map: Default::default(), vars: Default::default(), nvars: 0 });
    }
    // id 0 is reserved (means "no expression")
    intern(Node { op: Op::Const, w: 1, a: 0, b: 0, c: 0, k: 0 });
}
#[inline]
pub fn mask(w: u16) -> u128 { if w >= 128 { u128::MAX } else { (1u128 << w) - 1 } }
#[inline(always)]
pub fn n(e: E) -> Node { ctx().nodes[e as usize] }
#[inline(always)]
pub fn width(e: E) -> u16 { ctx().nodes[e as usize].w }
#[inline]
pub fn as_const(e: E) -> Option<u128> { let x = &ctx().nodes[e as usize]; if x.op == Op::Const { Some(x.k) } else { None } }
#[inline]
pub fn range(e: E) -> (u128, u128) { let c = ctx(); (c.lo[e as usize], c.hi[e as usize]) }

fn intern(nd: Node) -> E {
    let c = ctx();
    if let Some(&e) = c.map.get(&nd) { return e; }
    let e = c.nodes.len() as E;
    let m = mask(nd.w);
    let full = (0u128, m);
    let r = |e: E| (c.lo[e as usize], c.hi[e as usize]);
    let bits = |x: u128| -> u128 { if x == 0 { 0 } else { let z = x.leading_zeros(); if z == 0 { u128::MAX } else { (1u128 << (128 - z)) - 1 } } };
    let (lo, hi) = match nd.op {
        Op::Const => (nd.k, nd.k),
        Op::Var => full,
        Op::Add => { let (a, b) = (r(nd.a), r(nd.b)); match (a.1.checked_add(b.1), a.0.checked_add(b.0)) { (Some(h), Some(l)) if h <= m => (l, h), _ => full } }
        Op::Sub => { let (a, b) = (r(nd.a), r(nd.b)); if a.0 >= b.1 { (a.0 - b.1, a.1 - b.0) } else { full } }
        Op::Mul => { let (a, b) = (r(nd.a), r(nd.b)); match a.1.checked_mul(b.1) { Some(h) if h <= m => (a.0 * b.0, h), _ => full } }
        Op::UDiv => { let (a, b) = (r(nd.a), r(nd.b)); if b.0 > 0 { (a.0 / b.1, a.1 / b.0) } else { full } }
        Op::URem => { let (a, b) = (r(nd.a), r(nd.b)); if b.0 > 0 { (0, (b.1 - 1).min(a.1)) } else { full } }
        Op::And => { let (a, b) = (r(nd.a), r(nd.b)); (0, a.1.min(b.1)) }
        Op::Or => { let (a, b) = (r(nd.a), r(nd.b)); (a.0.max(b.0), bits(a.1 | b.1)) }
        Op::Xor => { let (a, b) = (r(nd.a), r(nd.b)); (0, bits(a.1 | b.1)) }
        Op::LShr => { let (a, b) = (r(nd.a), r(nd.b)); (0, if b.0 >= 128 { 0 } else { a.1 >> b.0 }) }
        Op::Concat => { let (a, b) = (r(nd.a), r(nd.b)); let lw = c.nodes[nd.b as usize].w; ((a.0 << lw) | b.0, (a.1 << lw) | b.1) }
        Op::Extract => { let a = r(nd.a); if nd.k == 0 && a.1 <= m { a } else if nd.k > 0 { let s = nd.k as u32; if (a.1 >> s) <= m { (a.0 >> s, a.1 >> s) } else { full } } else { full } }
        Op::Ite => { let (a, b) = (r(nd.b), r(nd.c)); (a.0.min(b.0), a.1.max(b.1)) }
        _ => full,
    };
    c.nodes.push(nd); c.lo.push(lo); c.hi.push(hi); c.map.insert(nd, e);
    e
}
fn mk(op: Op, w: u16, a: E, b: E, c: E, k: u128) -> E { 
    let e = intern(Node { op, w, a, b, c, k });
    let (lo, hi) = range(e);
    if lo == hi && op != Op::Const { return konst(lo, w); }
    e
}
pub fn wide(x: E, def: E) -> E { if as_const(def).is_some() { def } else { mk(Op::Wide, 64, x, def, 0, 0) } }
pub fn konst(v: u128, w: u16) -> E { intern(Node { op: Op::Const, w, a: 0, b: 0, c: 0, k: v & mask(w) }) }
pub fn new_var() -> E { let c = ctx(); let id = c.nvars; c.nvars += 1; intern(Node { op: Op::Var, w: 8, a: 0, b: 0, c: 0, k: id as u128 }) }
pub fn tru() -> E { konst(1, 1) }
pub fn fls() -> E { konst(0, 1) }
pub fn sx(v: u128, w: u16) -> i128 { if w >= 128 { v as i128 } else { ((v << (128 - w)) as i128) >> (128 - w) } }

pub fn fold(op: Op, w: u16, x: u128, y: u128) -> u128 {
    let m = mask(w);
    (match op {
        Op::Add => x.wrapping_add(y),
        Op::Sub => x.wrapping_sub(y),
        Op::Mul => x.wrapping_mul(y),
        Op::UDiv => if y == 0 { m } else { x / y },
        Op::URem => if y == 0 { x } else { x % y },
        Op::SDiv => { let (a, b) = (sx(x, w), sx(y, w)); if b == 0 { if a < 0 { 1 } else { m } } else { a.wrapping_div(b) as u128 } }
        Op::SRem => { let (a, b) = (sx(x, w), sx(y, w)); if b == 0 { x } else { a.wrapping_rem(b) as u128 } }
        Op::And => x & y,
        Op::Or => x | y,
        Op::Xor => x ^ y,
        Op::Shl => if y >= w as u128 { 0 } else { x << y },
        Op::LShr => if y >= w as u128 { 0 } else { x >> y },
        Op::AShr => { let s = y.min(w as u128 - 1) as u32; (sx(x, w) >> s) as u128 }
        _ => unreachable!(),
    }) & m
}

pub fn bin(op: Op, a: E, b: E) -> E {
    let w = width(a);
    debug_assert_eq!(w, width(b), "{:?}", op);
    let (ca, cb) = (as_const(a), as_const(b));
    if let (Some(x), Some(y)) = (ca, cb) { return konst(fold(op, w, x, y), w); }
    let m = mask(w);
    match op {
        Op::Add => {
            if ca.is_some() { return bin(Op::Add, b, a); }
            if let Some(y) = cb {
                if y == 0 { return a; }
                let na = n(a);
                if na.op == Op::Add { if let Some(z) = as_const(na.b) { return bin(Op::Add, na.a, konst(y.wrapping_add(z), w)); } }
                if na.op == Op::Sub { if let Some(z) = as_const(na.a) { return bin(Op::Sub, konst(z.wrapping_add(y), w), na.b); } }
            } else {
                let (na, nb) = (n(a), n(b));
                if na.op == Op::Add { if as_const(na.b).is_some() { return bin(Op::Add, bin(Op::Add, na.a, b), na.b); } }
                if nb.op == Op::Add { if as_const(nb.b).is_some() { return bin(Op::Add, bin(Op::Add, a, nb.a), nb.b); } }
                if nb.op == Op::Sub && nb.b == a { return nb.a; }
                if na.op == Op::Sub && na.b == b { return na.a; }
                if disjoint(a, b) { return bin(Op::Or, a, b); }
                if w == 1 { return bin(Op::Xor, a, b); }
                if a > b { return mk(Op::Add, w, b, a, 0, 0); }
            }
            mk(Op::Add, w, a, b, 0, 0)
        }
        Op::Sub => {
            if a == b { return konst(0, w); }
            if w == 1 { return bin(Op::Xor, a, b); }
            if let Some(y) = cb { return bin(Op::Add, a, konst(y.wrapping_neg(), w)); }
            let (na, nb) = (n(a), n(b));
            if na.op == Op::Add {
                if na.a == b { return na.b; }
                if na.b == b { return na.a; }
                if nb.op == Op::Add && na.a == nb.a { return bin(Op::Sub, na.b, nb.b); }
                if as_const(na.b).is_some() { return bin(Op::Add, bin(Op::Sub, na.a, b), na.b); }
            }
            if nb.op == Op::Add && as_const(nb.b).is_some() { return bin(Op::Sub, bin(Op::Sub, a, nb.b), nb.a); }
            if nb.op == Op::Sub && nb.a == a { return nb.b; }
            mk(Op::Sub, w, a, b, 0, 0)
        }
        Op::Mul => {
            if ca.is_some() { return bin(Op::Mul, b, a); }
            if w == 1 { return bin(Op::And, a, b); }
            if let Some(y) = cb {
                if y == 0 { return b; }
                if y == 1 { return a; }
                if y.is_power_of_two() { return bin(Op::Shl, a, konst(y.trailing_zeros() as u128, w)); }
                let na = n(a);
                if na.op == Op::Mul { if let Some(z) = as_const(na.b) { return bin(Op::Mul, na.a, konst(y.wrapping_mul(z), w)); } }
            } else if a > b { return mk(Op::Mul, w, b, a, 0, 0); }
            mk(Op::Mul, w, a, b, 0, 0)
        }
        Op::UDiv => {
            if let Some(y) = cb {
                if y == 1 { return a; }
                if y.is_power_of_two() { return bin(Op::LShr, a, konst(y.trailing_zeros() as u128, w)); }
            }
            mk(op, w, a, b, 0, 0)
        }
        Op::URem => {
            if let Some(y) = cb {
                if y.is_power_of_two() { return bin(Op::And, a, konst(y - 1, w)); }
                if range(a).1 < y { return a; }
            }
            mk(op, w, a, b, 0, 0)
        }
        Op::SDiv | Op::SRem => {
            // both non-negative: unsigned
            let h = m >> 1;
            if range(a).1 <= h && range(b).1 <= h { return bin(if op == Op::SDiv { Op::UDiv } else { Op::URem }, a, b); }
            mk(op, w, a, b, 0, 0)
        }
        Op::And | Op::Or | Op::Xor => {
            if ca.is_some() { return bin(op, b, a); }
            if a == b { return if op == Op::Xor { konst(0, w) } else { a }; }
            if let Some(y) = cb {
                match op {
                    Op::And => { if y == 0 { return b; } if y == m { return a; } }
                    Op::Or => { if y == 0 { return a; } if y == m { return b; } }
                    _ => { if y == 0 { return a; } }
                }
                let na = n(a);
                if na.op == op { if let Some(z) = as_const(na.b) { return bin(op, na.a, konst(fold(op, w, y, z), w)); } }
                if na.op == Op::Concat {
                    let lw = width(na.b);
                    return concat(bin(op, na.a, konst(y >> lw, w - lw)), bin(op, na.b, konst(y, lw)));
                }
                if op == Op::And {
                    // mask with contiguous ones -> concat/extract
                    let tz = y.trailing_zeros() as u16;
                    let ones = ((y >> tz).trailing_ones()) as u16;
                    if (y >> tz) == mask(ones) {
                        let mut r = extract(a, tz, ones);
                        if tz > 0 { r = concat(r, konst(0, tz)); }
                        if tz + ones < w { r = concat(konst(0, w - tz - ones), r); }
                        return r;
                    }
                }
                if w == 1 && op == Op::Xor && na.op == Op::Ite { return ite(na.a, bin(Op::Xor, na.b, b), bin(Op::Xor, na.c, b)); }
                return mk(op, w, a, b, 0, 0);
            }
            let (na, nb) = (n(a), n(b));
            if na.op == Op::Concat && nb.op == Op::Concat {
                // split at one boundary
                let lw = width(na.b).min(width(nb.b));
                let (hw, ah, al, bh, bl) = (w - lw, extract(a, lw, w - lw), extract(a, 0, lw), extract(b, lw, w - lw), extract(b, 0, lw));
                let _ = hw;
                return concat(bin(op, ah, bh), bin(op, al, bl));
            }
            // a concat containing constants against anything: split so constant parts vanish
            for (x, nx, y) in [(a, na, b), (b, nb, a)] {
                let _ = x;
                if nx.op == Op::Concat && (as_const(nx.a).is_some() || as_const(nx.b).is_some()) {
                    let lw = width(nx.b);
                    return concat(bin(op, nx.a, extract(y, lw, w - lw)), bin(op, nx.b, extract(y, 0, lw)));
                }
            }
            if w == 1 {
                // complementary literals
                let inv = |x: E, y: E| { let nx = n(x); nx.op == Op::Xor && nx.a == y && as_const(nx.b) == Some(1) };
                if inv(a, b) || inv(b, a) { return match op { Op::And => fls(), Op::Or => tru(), _ => tru() }; }
                // absorb: a & (a & x), a | (a | x)
                if nb.op == op && op != Op::Xor && (nb.a == a || nb.b == a) { return b; }
                if na.op == op && op != Op::Xor && (na.a == b || na.b == b) { return a; }
            }
            if op == Op::Xor {
                if na.op == Op::Xor { if na.a == b { return na.b; } if na.b == b { return na.a; } }
                if nb.op == Op::Xor { if nb.a == a { return nb.b; } if nb.b == a { return nb.a; } }
            }
            if a > b { mk(op, w, b, a, 0, 0) } else { mk(op, w, a, b, 0, 0) }
        }
        Op::Shl => {
            if let Some(y) = cb {
                if y == 0 { return a; }
                if y >= w as u128 { return konst(0, w); }
                let k = y as u16;
                return concat(extract(a, 0, w - k), konst(0, k));
            }
            if ca == Some(0) { return a; }
            mk(op, w, a, b, 0, 0)
        }
        Op::LShr => {
            if let Some(y) = cb {
                if y == 0 { return a; }
                if y >= w as u128 { return konst(0, w); }
                let k = y as u16;
                return concat(konst(0, k), extract(a, k, w - k));
            }
            if ca == Some(0) { return a; }
            mk(op, w, a, b, 0, 0)
        }
        Op::AShr => {
            if range(a).1 <= m >> 1 { return bin(Op::LShr, a, b); }
            if let Some(y) = cb {
                if y == 0 { return a; }
                let k = y.min(w as u128 - 1) as u16;
                return sext(extract(a, k, w - k), w);
            }
            mk(op, w, a, b, 0, 0)
        }
        _ => unreachable!("{:?}", op),
    }
}
/// no bit position where both can be one (structural)
fn disjoint(a: E, b: E) -> bool {
    fn zeros(e: E, d: u32) -> u128 {
        // mask of bits known zero
        let nd = n(e);
        match nd.op {
            Op::Const => !nd.k & mask(nd.w),
            Op::Concat if d > 0 => { let lw = width(nd.b); (zeros(nd.a, d - 1) << lw) | zeros(nd.b, d - 1) }
            _ => { let h = range(e).1; let lz = h.leading_zeros(); if lz == 0 { 0 } else { mask(nd.w) & !(if lz == 128 { 0 } else { u128::MAX >> lz }) } }
        }
    }
    let m = mask(width(a));
    (zeros(a, 16) | zeros(b, 16)) == m
}
pub fn not(a: E) -> E { bin(Op::Xor, a, tru()) }
pub fn and(a: E, b: E) -> E { bin(Op::And, a, b) }
pub fn or(a: E, b: E) -> E { bin(Op::Or, a, b) }

pub fn zext(a: E, w: u16) -> E { let aw = width(a); if aw == w { a } else { concat(konst(0, w - aw), a) } }
pub fn sext(a: E, w: u16) -> E {
    let aw = width(a);
    if aw == w { return a; }
    if let Some(x) = as_const(a) { return konst(sx(x, aw) as u128, w); }
    if range(a).1 <= mask(aw) >> 1 { return zext(a, w); }
    let na = n(a);
    if na.op == Op::SExt { return sext(na.a, w); }
    if aw == 1 { return ite(a, konst(mask(w), w), konst(0, w)); }
    mk(Op::SExt, w, a, 0, 0, 0)
}
pub fn extract(a: E, lo: u16, w: u16) -> E {
    let na = n(a);
    debug_assert!(lo + w <= na.w && w > 0, "extract {} {} from {}", lo, w, na.w);
    if lo == 0 && w == na.w { return a; }
    match na.op {
        Op::Const => return konst(na.k >> lo, w),
        Op::Concat => {
            let lw = width(na.b);
            if lo >= lw { return extract(na.a, lo - lw, w); }
            if lo + w <= lw { return extract(na.b, lo, w); }
            return concat(extract(na.a, 0, lo + w - lw), extract(na.b, lo, lw - lo));
        }
        Op::Extract => return extract(na.a, lo + na.k as u16, w),
        Op::SExt => {
            let aw = width(na.a);
            if lo + w <= aw { return extract(na.a, lo, w); }
            if lo < aw { return sext(extract(na.a, lo, aw - lo), w); }
            return sext(extract(na.a, aw - 1, 1), w);
        }
        Op::And | Op::Or | Op::Xor => return bin(na.op, extract(na.a, lo, w), extract(na.b, lo, w)),
        Op::Add | Op::Sub | Op::Mul if lo == 0 => return bin(na.op, extract(na.a, 0, w), extract(na.b, 0, w)),
        Op::Ite => {
            if as_const(na.b).is_some() || as_const(na.c).is_some() || w <= 8 {
                return ite(na.a, extract(na.b, lo, w), extract(na.c, lo, w));
            }
        }
        _ => {}
    }
    let hi = range(a).1;
    if lo < 128 && (hi >> lo) == 0 { return konst(0, w); }
    mk(Op::Extract, w, a, 0, 0, lo as u128)
}
fn merge(hi: E, lo: E) -> Option<E> {
    let (nh, nl) = (n(hi), n(lo));
    if nh.op == Op::Const && nl.op == Op::Const && nh.w + nl.w <= 128 { return Some(konst((nh.k << nl.w) | nl.k, nh.w + nl.w)); }
    if nh.op == Op::Extract {
        if nl.op == Op::Extract && nl.a == nh.a && nl.k + nl.w as u128 == nh.k { return Some(extract(nh.a, nl.k as u16, nh.w + nl.w)); }
    }
    None
}
pub fn concat(hi: E, lo: E) -> E {
    let w = width(hi) + width(lo);
    if let Some(m) = merge(hi, lo) { return m; }
    let nh = n(hi);
    if nh.op == Op::Concat { return concat(nh.a, concat(nh.b, lo)); }
    let nl = n(lo);
    if nl.op == Op::Concat { if let Some(m) = merge(hi, nl.a) { return concat(m, nl.b); } }
    // concat of ites on the same condition
    if nh.op == Op::Ite && nl.op == Op::Ite && nh.a == nl.a { return ite(nh.a, concat(nh.b, nl.b), concat(nh.c, nl.c)); }
    if nh.op == Op::Const && nl.op == Op::Ite && (as_const(nl.b).is_some() && as_const(nl.c).is_some()) && w <= 128 { return ite(nl.a, concat(hi, nl.b), concat(hi, nl.c)); }
    mk(Op::Concat, w, hi, lo, 0, 0)
}
pub fn eq(a: E, b: E) -> E {
    if a == b { return tru(); }
    let w = width(a);
    debug_assert_eq!(w, width(b));
    let (ca, cb) = (as_const(a), as_const(b));
    if let (Some(x), Some(y)) = (ca, cb) { return konst((x == y) as u128, 1); }
    if ca.is_some() { return eq(b, a); }
    let (ra, rb) = (range(a), range(b));
    if ra.1 < rb.0 || rb.1 < ra.0 { return fls(); }
    if w == 1 { return not(bin(Op::Xor, a, b)); }
    let (na, nb) = (n(a), n(b));
    if let Some(y) = cb {
        match na.op {
            Op::Concat => { let lw = width(na.b); return and(eq(na.a, konst(y >> lw, w - lw)), eq(na.b, konst(y, lw))); }
            Op::Ite => {
                let (t, e) = (as_const(na.b), as_const(na.c));
                if t.is_some() || e.is_some() { return ite(na.a, eq(na.b, b), eq(na.c, b)); }
            }
            Op::Add => if let Some(z) = as_const(na.b) { return eq(na.a, konst(y.wrapping_sub(z), w)); },
            Op::Sub => { if y == 0 { return eq(na.a, na.b); } if let Some(z) = as_const(na.a) { return eq(na.b, konst(z.wrapping_sub(y), w)); } }
            Op::Xor => { if let Some(z) = as_const(na.b) { return eq(na.a, konst(y ^ z, w)); } if y == 0 { return eq(na.a, na.b); } }
            Op::SExt => { let aw = width(na.a); let t = y & mask(aw); return if (sx(t, aw) as u128) & mask(w) == y { eq(na.a, konst(t, aw)) } else { fls() }; }
            _ => {}
        }
        return mk(Op::Eq, 1, a, b, 0, 0);
    }
    if na.op == Op::Concat || nb.op == Op::Concat {
        let (x, nx, y) = if na.op == Op::Concat { (a, na, b) } else { (b, nb, a) };
        let _ = x;
        let ny = n(y);
        if ny.op == Op::Concat {
            let lw = width(nx.b).min(width(ny.b));
            return and(eq(extract(x, lw, w - lw), extract(y, lw, w - lw)), eq(extract(x, 0, lw), extract(y, 0, lw)));
        }
    }
    if na.op == Op::SExt && nb.op == Op::SExt && width(na.a) == width(nb.a) { return eq(na.a, nb.a); }
    if na.op == Op::Add && nb.op == Op::Add && na.a == nb.a { return eq(na.b, nb.b); }
    if na.op == Op::Add && na.a == b { return eq(na.b, konst(0, w)); }
    if nb.op == Op::Add && nb.a == a { return eq(nb.b, konst(0, w)); }
    if a > b { mk(Op::Eq, 1, b, a, 0, 0) } else { mk(Op::Eq, 1, a, b, 0, 0) }
}
pub fn ult(a: E, b: E) -> E {
    if a == b { return fls(); }
    let w = width(a);
    let (ra, rb) = (range(a), range(b));
    if ra.1 < rb.0 { return tru(); }
    if ra.0 >= rb.1 { return fls(); }
    let (na, nb) = (n(a), n(b));
    let (ca, cb) = (as_const(a), as_const(b));
    if cb == Some(1) { return eq(a, konst(0, w)); }
    if ca == Some(0) { return not(eq(b, a)); }
    if cb == Some(mask(w)) { return not(eq(a, b)); }
    if w == 1 { return and(not(a), b); }
    // strip equal high parts / zero extension
    if na.op == Op::Concat && (nb.op == Op::Concat || nb.op == Op::Const) {
        let hw = width(na.a);
        let lw = w - hw;
        let bh = extract(b, lw, hw);
        if na.a == bh { return ult(na.b, extract(b, 0, lw)); }
        // low part all zero vs const
        if as_const(na.b) == Some(0) && cb.is_some() {
            let y = cb.unwrap();
            return if y & mask(lw) == 0 { ult(na.a, bh) } else { not(ult(bh, na.a)) };
        }
    }
    if nb.op == Op::Concat && (na.op == Op::Const) {
        let hw = width(nb.a);
        let lw = w - hw;
        let ah = extract(a, lw, hw);
        if nb.a == ah { return ult(extract(a, 0, lw), nb.b); }
    }
    if na.op == Op::Ite && cb.is_some() && (as_const(na.b).is_some() || as_const(na.c).is_some()) { return ite(na.a, ult(na.b, b), ult(na.c, b)); }
    if nb.op == Op::Ite && ca.is_some() && (as_const(nb.b).is_some() || as_const(nb.c).is_some()) { return ite(nb.a, ult(a, nb.b), ult(a, nb.c)); }
    mk(Op::Ult, 1, a, b, 0, 0)
}
pub fn slt(a: E, b: E) -> E {
    if a == b { return fls(); }
    let w = width(a);
    let h = mask(w) >> 1;
    let (ra, rb) = (range(a), range(b));
    let an = ra.1 <= h; let bn = rb.1 <= h; // non-negative
    let am = ra.0 > h; let bm = rb.0 > h; // negative
    if (an && bn) || (am && bm) { return ult(a, b); }
    if am && bn { return tru(); }
    if an && bm { return fls(); }
    let (na, nb) = (n(a), n(b));
    if as_const(b) == Some(0) { return extract(a, w - 1, 1); }
    if as_const(a) == Some(mask(w)) { return not(extract(b, w - 1, 1)); }
    if na.op == Op::SExt && nb.op == Op::SExt && width(na.a) == width(nb.a) { return slt(na.a, nb.a); }
    if na.op == Op::SExt {
        if let Some(y) = as_const(b) { let aw = width(na.a); let s = sx(y, w); let lim = 1i128 << (aw - 1); if s >= lim { return tru(); } if s <= -lim { return fls(); } return slt(na.a, konst(y, aw)); }
    }
    if nb.op == Op::SExt {
        if let Some(x) = as_const(a) { let bw = width(nb.a); let s = sx(x, w); let lim = 1i128 << (bw - 1); if s >= lim - 1 { return fls(); } if s < -lim { return tru(); } return slt(konst(x, bw), nb.a); }
    }
    if na.op == Op::Ite && as_const(b).is_some() && (as_const(na.b).is_some() || as_const(na.c).is_some()) { return ite(na.a, slt(na.b, b), slt(na.c, b)); }
    mk(Op::Slt, 1, a, b, 0, 0)
}
pub fn ite(c: E, t: E, e: E) -> E {
    if let Some(x) = as_const(c) { return if x != 0 { t } else { e }; }
    if t == e { return t; }
    let nc = n(c);
    if nc.op == Op::Xor && as_const(nc.b) == Some(1) { return ite(nc.a, e, t); }
    let w = width(t);
    let (ct, ce) = (as_const(t), as_const(e));
    if w == 1 {
        match (ct, ce) {
            (Some(1), Some(0)) => return c,
            (Some(0), Some(1)) => return not(c),
            (Some(1), None) => return or(c, e),
            (Some(0), None) => return and(not(c), e),
            (None, Some(1)) => return or(not(c), t),
            (None, Some(0)) => return and(c, t),
            _ => {}
        }
        if t == c { return or(c, e); }
        if e == c { return and(c, t); }
    }
    let (nt, ne) = (n(t), n(e));
    if nt.op == Op::Ite && nt.a == c { return ite(c, nt.b, e); }
    if ne.op == Op::Ite && ne.a == c { return ite(c, t, ne.c); }
    if ne.op == Op::Ite && ne.b == t { return ite(or(c, ne.a), t, ne.c); }
    if nt.op == Op::Concat && ne.op == Op::Concat && nt.a == ne.a { return concat(nt.a, ite(c, nt.b, ne.b)); }
    mk(Op::Ite, w, c, t, e, 0)
}

// ---- variable sets ----
pub fn varset(e: E) -> Rc<Vec<u64>> {
    if let Some(v) = ctx().vars.get(&e) { return v.clone(); }
    let nd = n(e);
    let r = match nd.op {
        Op::Const => Rc::new(vec![]),
        Op::Var => { let i = nd.k as usize; let mut v = vec![0u64; i / 64 + 1]; v[i / 64] |= 1 << (i % 64); Rc::new(v) }
        _ => {
            let mut acc: Rc<Vec<u64>> = Rc::new(vec![]);
            for x in [nd.a, nd.b, nd.c] {
                if x == 0 { continue; }
                let s = varset(x);
                if acc.is_empty() { acc = s; continue; }
                if Rc::ptr_eq(&acc, &s) || subset(&s, &acc) { continue; }
                if subset(&acc, &s) { acc = s; continue; }
                let mut v = (*acc).clone();
                union(&mut v, &s);
                acc = Rc::new(v);
            }
            acc
        }
    };
    ctx().vars.insert(e, r.clone());
    r
}
pub fn subset(a: &[u64], b: &[u64]) -> bool { a.iter().enumerate().all(|(i, x)| x & !b.get(i).copied().unwrap_or(0) == 0) }
pub fn union(a: &mut Vec<u64>, b: &[u64]) { if a.len() < b.len() { a.resize(b.len(), 0) } for (i, x) in b.iter().enumerate() { a[i] |= x } }
pub fn intersects(a: &[u64], b: &[u64]) -> bool { a.iter().zip(b).any(|(x, y)| x & y != 0) }

// ---- evaluation under an assignment (variable i -> byte) ----
pub struct Model { pub v: Vec<u8>, cache: std::cell::RefCell<FxMap<E, u128>> }
impl Model {
    pub fn new(v: Vec<u8>) -> Rc<Model> { Rc::new(Model { v, cache: Default::default() }) }
    pub fn eval(&self, e: E) -> u128 {
        let nd = n(e);
        match nd.op {
            Op::Const => return nd.k,
            Op::Var => return self.v.get(nd.k as usize).copied().unwrap_or(0) as u128,
            _ => {}
        }
        if let Some(&x) = self.cache.borrow().get(&e) { return x; }
        let r = match nd.op {
            Op::Concat => { let lw = width(nd.b); (self.eval(nd.a) << lw) | self.eval(nd.b) }
            Op::Extract => (self.eval(nd.a) >> nd.k) & mask(nd.w),
            Op::SExt => (sx(self.eval(nd.a), width(nd.a)) as u128) & mask(nd.w),
            Op::Eq => (self.eval(nd.a) == self.eval(nd.b)) as u128,
            Op::Ult => (self.eval(nd.a) < self.eval(nd.b)) as u128,
            Op::Slt => { let w = width(nd.a); (sx(self.eval(nd.a), w) < sx(self.eval(nd.b), w)) as u128 }
            Op::Ite => if self.eval(nd.a) != 0 { self.eval(nd.b) } else { self.eval(nd.c) },
            Op::Wide => self.eval(nd.b),
            op => fold(op, nd.w, self.eval(nd.a), self.eval(nd.b)),
        };
        self.cache.borrow_mut().insert(e, r);
        r
    }
}
pub fn show(e: E, d: u32) -> String {
    let nd = n(e);
    match nd.op {
        Op::Const => format!("{:#x}:{}", nd.k, nd.w),
        Op::Var => format!("v{}", nd.k),
        _ if d == 0 => "..".into(),
        Op::Extract => format!("{}[{}+{}]", show(nd.a, d - 1), nd.k, nd.w),
        Op::Ite => format!("ite({},{},{})", show(nd.a, d - 1), show(nd.b, d - 1), show(nd.c, d - 1)),
        Op::SExt => format!("sext({},{})", show(nd.a, d - 1), nd.w),
        op => format!("{:?}({},{})", op, show(nd.a, d - 1), show(nd.b, d - 1)),
    }
}
pub fn var(id: u32) -> E { intern(Node { op: Op::Var, w: 8, a: 0, b: 0, c: 0, k: id as u128 }) }

/// whether the expression has at most n distinct nodes
pub fn small(e: E, max: usize) -> bool {
    let mut seen: std::collections::HashSet<E> = Default::default();
    let mut todo = vec![e];
    while let Some(x) = todo.pop() {
        if !seen.insert(x) { continue; }
        if seen.len() > max { return false; }
        let d = n(x);
        match d.op { Op::Const | Op::Var => {} _ => for k in [d.a, d.b, d.c] { if k != 0 { todo.push(k) } } }
    }
    true
}
