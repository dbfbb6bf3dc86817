//! Stand-in for the graph library (it is not available offline): the part of petgraph's interface for directed graphs without removal.
//! Edges are visited from the most recently added one, as petgraph does.
#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum Direction { Outgoing = 0, Incoming = 1 }
impl Direction { pub fn opposite(self) -> Self { match self { Direction::Outgoing => Direction::Incoming, _ => Direction::Outgoing } } }
pub use Direction::{Incoming, Outgoing};
pub use graph::Graph;
pub mod graph {
    use super::Direction;
    use std::marker::PhantomData;
    #[derive(Debug, Clone, Copy, PartialEq, Eq, Hash, PartialOrd, Ord, Default)]
    pub struct NodeIndex(pub(crate) usize);
    #[derive(Debug, Clone, Copy, PartialEq, Eq, Hash, PartialOrd, Ord, Default)]
    pub struct EdgeIndex(pub(crate) usize);
    impl NodeIndex { pub fn new(x: usize) -> Self { NodeIndex(x) } pub fn index(self) -> usize { self.0 } }
    impl EdgeIndex { pub fn new(x: usize) -> Self { EdgeIndex(x) } pub fn index(self) -> usize { self.0 } }
    #[derive(Debug, Clone)]
    pub struct Graph<N, E, Ty = super::Directed, Ix = u32> { nodes: Vec<N>, edges: Vec<(NodeIndex, NodeIndex, E)>, p: PhantomData<(Ty, Ix)> }
    pub type DiGraph<N, E, Ix = u32> = Graph<N, E, super::Directed, Ix>;
    impl<N, E, Ty, Ix> Default for Graph<N, E, Ty, Ix> { fn default() -> Self { Graph { nodes: vec![], edges: vec![], p: PhantomData } } }
    #[derive(Debug)]
    pub struct EdgeReference<'a, E> { id: EdgeIndex, from: NodeIndex, to: NodeIndex, weight: &'a E }
    impl<E> Clone for EdgeReference<'_, E> { fn clone(&self) -> Self { *self } }
    impl<E> Copy for EdgeReference<'_, E> {}
    impl<'a, E> EdgeReference<'a, E> {
        pub fn weight(&self) -> &'a E { self.weight }
        pub fn source(&self) -> NodeIndex { self.from }
        pub fn target(&self) -> NodeIndex { self.to }
        pub fn id(&self) -> EdgeIndex { self.id }
    }
    impl<N, E, Ty, Ix> Graph<N, E, Ty, Ix> {
        pub fn new() -> Self { Self::default() }
        pub fn add_node(&mut self, n: N) -> NodeIndex { self.nodes.push(n); NodeIndex(self.nodes.len() - 1) }
        pub fn add_edge(&mut self, a: NodeIndex, b: NodeIndex, e: E) -> EdgeIndex { assert!(a.0 < self.nodes.len() && b.0 < self.nodes.len()); self.edges.push((a, b, e)); EdgeIndex(self.edges.len() - 1) }
        pub fn update_edge(&mut self, a: NodeIndex, b: NodeIndex, e: E) -> EdgeIndex { match self.find_edge(a, b) { Some(i) => { self.edges[i.0].2 = e; i } None => self.add_edge(a, b, e) } }
        pub fn node_weight(&self, n: NodeIndex) -> Option<&N> { self.nodes.get(n.0) }
        pub fn node_weight_mut(&mut self, n: NodeIndex) -> Option<&mut N> { self.nodes.get_mut(n.0) }
        pub fn edge_weight(&self, e: EdgeIndex) -> Option<&E> { self.edges.get(e.0).map(|x| &x.2) }
        pub fn edge_endpoints(&self, e: EdgeIndex) -> Option<(NodeIndex, NodeIndex)> { self.edges.get(e.0).map(|x| (x.0, x.1)) }
        pub fn node_count(&self) -> usize { self.nodes.len() }
        pub fn edge_count(&self) -> usize { self.edges.len() }
        pub fn node_indices(&self) -> impl DoubleEndedIterator<Item = NodeIndex> + ExactSizeIterator { (0..self.nodes.len()).map(NodeIndex) }
        pub fn node_weights(&self) -> std::slice::Iter<'_, N> { self.nodes.iter() }
        pub fn edge_references(&self) -> impl DoubleEndedIterator<Item = EdgeReference<'_, E>> { self.edges.iter().enumerate().map(|(i, e)| EdgeReference { id: EdgeIndex(i), from: e.0, to: e.1, weight: &e.2 }) }
        pub fn edges_directed(&self, n: NodeIndex, d: Direction) -> impl Iterator<Item = EdgeReference<'_, E>> + Clone + '_ { let v: Vec<_> = self.edge_references().rev().filter(|e| n == match d { Direction::Outgoing => e.from, _ => e.to }).collect(); v.into_iter() }
        pub fn edges(&self, n: NodeIndex) -> impl Iterator<Item = EdgeReference<'_, E>> + Clone + '_ { self.edges_directed(n, Direction::Outgoing) }
        pub fn edges_connecting(&self, a: NodeIndex, b: NodeIndex) -> impl Iterator<Item = EdgeReference<'_, E>> + '_ { self.edge_references().rev().filter(move |e| e.from == a && e.to == b) }
        pub fn neighbors_directed(&self, n: NodeIndex, d: Direction) -> impl Iterator<Item = NodeIndex> + '_ { self.edges_directed(n, d).map(move |e| match d { Direction::Outgoing => e.to, _ => e.from }) }
        pub fn neighbors(&self, n: NodeIndex) -> impl Iterator<Item = NodeIndex> + '_ { self.neighbors_directed(n, Direction::Outgoing) }
        pub fn find_edge(&self, a: NodeIndex, b: NodeIndex) -> Option<EdgeIndex> { self.edge_references().rev().find(|e| e.from == a && e.to == b).map(|e| e.id) }
        pub fn contains_edge(&self, a: NodeIndex, b: NodeIndex) -> bool { self.find_edge(a, b).is_some() }
        /// outgoing edges of `a` first
        pub fn find_edge_undirected(&self, a: NodeIndex, b: NodeIndex) -> Option<(EdgeIndex, Direction)> { self.find_edge(a, b).map(|e| (e, Direction::Outgoing)).or_else(|| self.find_edge(b, a).map(|e| (e, Direction::Incoming))) }
        pub(crate) fn refs(&self) -> Vec<(NodeIndex, &N)> { self.nodes.iter().enumerate().map(|(i, n)| (NodeIndex(i), n)).collect() }
    }
    impl<N, E, Ty, Ix> std::ops::Index<NodeIndex> for Graph<N, E, Ty, Ix> { type Output = N; fn index(&self, i: NodeIndex) -> &N { &self.nodes[i.0] } }
    impl<N, E, Ty, Ix> std::ops::IndexMut<NodeIndex> for Graph<N, E, Ty, Ix> { fn index_mut(&mut self, i: NodeIndex) -> &mut N { &mut self.nodes[i.0] } }
    impl<N, E, Ty, Ix> std::ops::Index<EdgeIndex> for Graph<N, E, Ty, Ix> { type Output = E; fn index(&self, i: EdgeIndex) -> &E { &self.edges[i.0].2 } }
}
#[derive(Debug, Clone, Copy)]
pub struct Directed;
pub mod visit {
    use super::graph::{Graph, NodeIndex};
    pub trait IntoNodeReferences { type NodeRef; type Iter: Iterator<Item = Self::NodeRef>; fn node_references(self) -> Self::Iter; }
    impl<'a, N, E, Ty, Ix> IntoNodeReferences for &'a Graph<N, E, Ty, Ix> { type NodeRef = (NodeIndex, &'a N); type Iter = std::vec::IntoIter<(NodeIndex, &'a N)>; fn node_references(self) -> Self::Iter { self.refs().into_iter() } }
    /// petgraph has `source`, `target`, `weight` in a trait; here they are inherent
    pub trait EdgeRef {}
}
pub mod prelude { pub use super::graph::{DiGraph, EdgeIndex, Graph, NodeIndex}; pub use super::visit::*; pub use super::{Directed, Direction, Incoming, Outgoing}; }
