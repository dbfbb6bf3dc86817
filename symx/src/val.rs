use crate::expr::*;
use std::rc::Rc;
#[derive(Clone, Debug)]
pub enum Val { C(u64), E(E), Agg(Rc<Vec<Val>>) }
impl Val {
    pub fn c(&self) -> u64 { match self { Val::C(x) => *x, Val::E(e) => as_const(*e).expect("constant") as u64, _ => panic!("aggregate where scalar expected") } }
    /// as expression of width w
    #[inline]
    pub fn e(&self, w: u16) -> E { match self { Val::C(x) => konst(*x as u128, w), Val::E(e) => { debug_assert_eq!(width(*e), w); *e } Val::Agg(_) => panic!("aggregate") } }
    #[inline]
    pub fn of(e: E) -> Val { let nd = n(e); if nd.op == Op::Const && nd.w <= 64 { Val::C(nd.k as u64) } else { Val::E(e) } }
    #[inline]
    pub fn k(&self) -> Option<u128> { match self { Val::C(x) => Some(*x as u128), Val::E(e) => as_const(*e), _ => None } }
}
