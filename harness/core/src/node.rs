//! The node type of the workloads. Every node value ever saved carries a unique `uid`, so that a
//! read identifies the write it observed; live instances are counted per thread.

use std::cell::Cell;

use plotline::{id::Identify, property::Property};
use vcommon::mix;

use crate::keys::Key;

thread_local! {
    static LIVE: Cell<i64> = const { Cell::new(0) };
    /// Called on every clone; may panic (fault injection).
    static ON_CLONE: Cell<Option<fn()>> = const { Cell::new(None) };
}

pub fn live() -> i64 {
    LIVE.with(|l| l.get())
}
pub fn reset_live() {
    LIVE.with(|l| l.set(0));
}
pub fn on_clone(f: Option<fn()>) {
    ON_CLONE.with(|c| c.set(f));
}

#[derive(Debug)]
pub struct Token(());
impl Token {
    fn new() -> Self {
        LIVE.with(|l| l.set(l.get() + 1));
        Token(())
    }
}
impl Drop for Token {
    fn drop(&mut self) {
        let _ = LIVE.try_with(|l| l.set(l.get() - 1));
    }
}

#[derive(Debug)]
pub struct Node<K> {
    pub id: K,
    pub uid: u64,
    pub rev: u64,
    pub universe: usize,
    _tok: Token,
}

impl<K: Key> Node<K> {
    pub fn new(idx: usize, variant: u64, uid: u64, rev: u64, universe: usize) -> Self {
        Node { id: K::make(idx, variant), uid, rev, universe, _tok: Token::new() }
    }
}

impl<K: Clone> Clone for Node<K> {
    fn clone(&self) -> Self {
        if let Some(f) = ON_CLONE.with(|c| c.get()) {
            f();
        }
        Node { id: self.id.clone(), uid: self.uid, rev: self.rev, universe: self.universe, _tok: Token::new() }
    }
}

impl<K> Identify for Node<K> {
    type Id = K;
    fn id(&self) -> &K {
        &self.id
    }
}

/// The outgoing edges of a node, as a function of its uid: parallel, self and dangling ones occur.
pub fn edges_of(uid: u64, universe: usize) -> Vec<usize> {
    let h = mix(uid ^ 0xED6E);
    // Now and then very many of them.
    let n = match h / 5 % 500 {
        0 => [16, 17, 33, 64, 65, 130, 257, 300, 513, 700][(h / 2500 % 10) as usize],
        _ => (h % 5) as usize,
    };
    (0..n).map(|j| (mix(uid.wrapping_mul(31).wrapping_add(j as u64)) % (universe as u64 + 2)) as usize).collect()
}

pub struct Edge<K>(pub K);
impl<K> Identify for Edge<K> {
    type Id = K;
    fn id(&self) -> &K {
        &self.0
    }
}
impl<K: Key> Property<Node<K>> for Edge<K> {
    fn all(n: &Node<K>) -> Vec<Self> {
        edges_of(n.uid, n.universe).into_iter().map(|i| Edge(K::make(i, n.uid))).collect()
    }
}

/// A second kind of edge of the same nodes.
pub fn links_of(uid: u64, universe: usize) -> Vec<usize> {
    edges_of(mix(uid ^ 0x117), universe)
}
pub struct Link<K>(pub K);
impl<K> Identify for Link<K> {
    type Id = K;
    fn id(&self) -> &K {
        &self.0
    }
}
impl<K: Key> Property<Node<K>> for Link<K> {
    fn all(n: &Node<K>) -> Vec<Self> {
        links_of(n.uid, n.universe).into_iter().map(|i| Link(K::make(i, n.uid))).collect()
    }
}
