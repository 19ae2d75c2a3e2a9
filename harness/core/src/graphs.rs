//! C10: a graph is a map (online comparison with a BTreeMap of id index -> last write).
//! C11: node handles and traversal over graphs, over recording sources and over contexts.

use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, BTreeSet, VecDeque};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::Barrier;

use plotline::deref::TryDeref;
use plotline::graph::{Graph, NodeProxy, Source};
use plotline::id::Identify;
use plotline::schema::transaction::{Context, Transaction};
use plotline::schema::{Error, Schema};
use vcommon::{mix, Case, Rng, Violation};

use crate::keys::{Ci, Key, Rev};
use crate::node::{edges_of, links_of, Edge, Link, Node};

type M = BTreeMap<usize, u64>;
type R = Result<(), Violation>;

struct Log {
    v: Vec<String>,
    next: u64,
}
impl Log {
    fn new() -> Self {
        Log { v: vec![], next: 1 }
    }
    fn uid(&mut self) -> u64 {
        self.next += 1;
        self.next
    }
    fn add(&mut self, s: String) {
        if self.v.len() < 3000 {
            self.v.push(s);
        }
    }
    fn bad(&self, m: String) -> Violation {
        let from = self.v.len().saturating_sub(80);
        Violation::new(m, self.v[from..].join("\n"))
    }
}

fn node<K: Key>(k: usize, uid: u64, u: usize) -> Node<K> {
    Node::new(k, mix(uid), uid, 0, u)
}

fn check_graph<K: Key>(g: &Graph<Node<K>>, m: &M, u: usize, full: bool, r: &mut Rng, c: &mut Case, log: &Log) -> R {
    let probes: Vec<usize> = if full { (0..u + 1).collect() } else { (0..3).map(|_| r.below(u + 1)).collect() };
    for k in probes {
        let id = K::make(k, r.u64());
        let want = m.get(&k).copied();
        let got = g.get(&id).map(|n| (n.uid, n.id.index()));
        if got != want.map(|w| (w, k)) {
            return Err(log.bad(format!("lookup of id {k} gives (uid,id) {got:?}, last write {want:?}")));
        }
        if g.contains(&id) != want.is_some() {
            return Err(log.bad(format!("contains({k}) = {} but last write {want:?}", want.is_none())));
        }
        let p = g.node(id);
        if p.is_virtual() != want.is_none() || p.try_deref().map(|n| n.uid) != want {
            return Err(log.bad(format!("handle of id {k}: virtual {} value {:?}, last write {want:?}", p.is_virtual(), p.try_deref().map(|n| n.uid))));
        }
        c.count("lookups", 1);
    }
    if full {
        let mut seen: Vec<(K, usize, u64)> = vec![];
        for n in g {
            if let Some((p, ..)) = seen.last() {
                if *p >= n.id {
                    return Err(log.bad(format!("iteration yields id {} after {}, not ascending", n.id.index(), p.index())));
                }
            }
            seen.push((n.id.clone(), n.id.index(), n.uid));
        }
        let mut got: Vec<(usize, u64)> = seen.iter().map(|x| (x.1, x.2)).collect();
        got.sort();
        let want: Vec<(usize, u64)> = m.iter().map(|(k, v)| (*k, *v)).collect();
        if got != want {
            let extra: Vec<_> = got.iter().filter(|x| !want.contains(x)).take(5).collect();
            let lack: Vec<_> = want.iter().filter(|x| !got.contains(x)).take(5).collect();
            return Err(log.bad(format!("iteration yields (id,uid) {extra:?} not expected and lacks {lack:?}")));
        }
        c.count("iterations", 1);
        c.max("max_nodes", got.len() as u64);
    }
    Ok(())
}

fn mutate<K: Key>(g: &mut Graph<Node<K>>, m: &mut M, u: usize, r: &mut Rng, c: &mut Case, log: &mut Log) -> R {
    let k = r.below(u);
    if r.chance(60) {
        let uid = log.uid();
        log.add(format!("insert id {k} uid {uid}"));
        let old = g.insert(node(k, uid, u)).map(|n| (n.id.index(), n.uid));
        let want = m.insert(k, uid).map(|v| (k, v));
        c.count("inserts", 1);
        c.count("replacements", want.is_some() as u64);
        if old != want {
            return Err(log.bad(format!("insert of id {k} returned {old:?}, replaced node is {want:?}")));
        }
    } else {
        log.add(format!("remove id {k}"));
        let old = g.remove(&K::make(k, r.u64())).map(|n| (n.id.index(), n.uid));
        let want = m.remove(&k).map(|v| (k, v));
        c.count("removals", want.is_some() as u64);
        c.count("removals_of_absent", want.is_none() as u64);
        if old != want {
            return Err(log.bad(format!("remove of id {k} returned {old:?}, removed node is {want:?}")));
        }
    }
    Ok(())
}

fn c10_k<K: Key>(c: &mut Case) -> R {
    let mut r = c.rng();
    let mut log = Log::new();
    let mut u = *r.pick(&[1, 2, 3, 6, 12, 40, 200, 1500]);
    let mut m = M::new();
    // Building.
    let n = r.below(u * 2 + 1);
    let way = if r.chance(if c.light { 0 } else { 2 }) { 3 } else { r.below(3) };
    let mut g: Graph<Node<K>> = match way {
        3 => {
            // Many distinct ids, in order, and as many as make boundaries likely.
            let n = 1 + r.edge(4200);
            u = n + r.below(3);
            let mut ks: Vec<usize> = (0..n).collect();
            match r.below(4) {
                0 => ks.reverse(),
                1 => r.shuffle(&mut ks),
                _ => {}
            }
            let list: Vec<(usize, u64)> = ks.into_iter().map(|k| (k, log.uid())).collect();
            m.extend(list.iter().copied());
            log.add(format!("{} u={u} from_iter of {n} distinct ids from {:?}", K::NAME, &list[..n.min(3)]));
            c.count("built_from_many", 1);
            c.max("max_iterator", n as u64);
            Graph::from_iter(list.into_iter().map(|(k, uid)| node(k, uid, u)))
        }
        0 => {
            let mut list = vec![];
            for _ in 0..n {
                let (k, uid) = (r.below(u), log.uid());
                m.insert(k, uid);
                list.push((k, uid));
            }
            log.add(format!("{} u={u} from_iter {list:?}", K::NAME));
            c.count("built_from_iterator", 1);
            Graph::from_iter(list.into_iter().map(|(k, uid)| node(k, uid, u)))
        }
        1 => {
            let mut g = Graph::default();
            for _ in 0..n {
                let (k, uid) = (r.below(u), log.uid());
                m.insert(k, uid);
                log.add(format!("with_node id {k} uid {uid}"));
                g = g.with_node(node(k, uid, u));
            }
            g
        }
        _ => Graph::default(),
    };
    check_graph(&g, &m, u, true, &mut r, c, &log)?;
    let ops = 2 + r.below(60);
    for i in 0..ops {
        mutate(&mut g, &mut m, u, &mut r, c, &mut log)?;
        check_graph(&g, &m, u, u <= 40 || i % 16 == 0, &mut r, c, &log)?;
        if r.chance(5) {
            let (k, uid) = (r.below(u), log.uid());
            log.add(format!("with_node id {k} uid {uid}"));
            m.insert(k, uid);
            g = g.with_node(node(k, uid, u));
        }
    }
    check_graph(&g, &m, u, true, &mut r, c, &log)?;
    // The same graph behind a schema.
    let s = Schema::from(g);
    for _ in 0..2 + r.below(8) {
        match r.below(4) {
            0 => {
                log.add("schema.write()".into());
                let mut w = s.write();
                for _ in 0..r.below(5) {
                    mutate(&mut w, &mut m, u, &mut r, c, &mut log)?;
                }
                check_graph(&w, &m, u, true, &mut r, c, &log)?;
                c.count("write_accesses", 1);
            }
            1 => {
                log.add("write access held by panicking code".into());
                let (k, uid) = (r.below(u), log.uid());
                let _ = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
                    let mut w = s.write();
                    w.insert(node(k, uid, u));
                    std::panic::resume_unwind(Box::new(()));
                }));
                m.insert(k, uid);
                c.count("panics_under_write_access", 1);
            }
            2 => {
                let (k, uid, del) = (r.below(u), log.uid(), r.chance(40));
                log.add(format!("transaction id {k} delete {del} uid {uid}"));
                let ok = s.transaction().with(|ctx| {
                    if del {
                        ctx.delete(K::make(k, uid));
                    } else {
                        ctx.save(node(k, uid, u));
                    }
                    Ok(())
                });
                if ok.is_err() {
                    return Err(log.bad("transaction failed".into()));
                }
                if del {
                    m.remove(&k);
                } else {
                    m.insert(k, uid);
                }
            }
            _ => {}
        }
        let (a, b) = (s.read(), s.read());
        check_graph(&a, &m, u, true, &mut r, c, &log)?;
        check_graph(&b, &m, u, false, &mut r, c, &log)?;
        c.count("read_accesses", 2);
    }
    for (k, v) in &m {
        c.mixh((*k as u64) << 32 | v);
    }
    c.nontrivial = true;
    if c.idx < 6 {
        c.sample = Some(log.v.iter().take(25).cloned().collect::<Vec<_>>().join("; "));
    }
    Ok(())
}

pub fn c10(c: &mut Case) -> R {
    match c.seed % 4 {
        0 => c10_k::<u32>(c),
        1 => c10_k::<String>(c),
        2 => c10_k::<Rev>(c),
        _ => c10_k::<Ci>(c),
    }
}

// ------------------------------------------------------------------ C11

/// A source whose contents change over time, and that records how it is asked.
struct Shifting<K> {
    m: RefCell<M>,
    u: usize,
    gets: Cell<u64>,
    _k: std::marker::PhantomData<K>,
}
impl<K: Key> Source for Shifting<K> {
    type Node = Node<K>;
    fn get(&self, id: &K) -> Option<Node<K>> {
        self.gets.set(self.gets.get() + 1);
        let k = id.index();
        self.m.borrow().get(&k).map(|uid| Node::new(k, 0, *uid, 0, self.u))
    }
    fn contains(&self, id: &K) -> bool {
        self.m.borrow().contains_key(&id.index())
    }
}

/// What the monitor knows about one live handle.
struct H<'a, S: Source> {
    p: NodeProxy<'a, S>,
    k: usize,
    /// First value dereferenced; for clones also the value the original had cached.
    seen: Option<Option<u64>>,
    may: Option<Option<u64>>,
}

fn check_succ<'a, K: Key, S: Source<Node = Node<K>>>(
    p: &NodeProxy<'a, S>,
    src: &S,
    val: Option<u64>,
    u: usize,
    c: &mut Case,
    log: &Log,
) -> Result<Vec<(NodeProxy<'a, S>, usize)>, Violation> {
    let succ = p.successors::<Edge<K>>();
    let got: Vec<usize> = succ.iter().map(|s| s.id().index()).collect();
    let want = val.map(|v| edges_of(v, u)).unwrap_or_default();
    c.count("successor_lists", 1);
    c.count("successors", want.len() as u64);
    if got != want {
        return Err(log.bad(format!("successors of id {} (value {val:?}) are {got:?}, its edges are {want:?}", p.id.index())));
    }
    for s in &succ {
        if !std::ptr::eq(s.source, src) {
            return Err(log.bad(format!("successor {} of id {} has another source", s.id.index(), p.id.index())));
        }
        if s.id.index() != s.id().index() {
            return Err(log.bad("handle's id field and id() differ".into()));
        }
    }
    c.max("max_successors", want.len() as u64);
    if val.is_some_and(|v| v % 3 == 0) {
        // The other kind of edge, through the same handle.
        let other: Vec<usize> = p.successors::<Link<K>>().iter().map(|s| s.id().index()).collect();
        let want = val.map(|v| links_of(v, u)).unwrap_or_default();
        c.count("successor_lists_of_another_edge_type", 1);
        if other != want {
            return Err(log.bad(format!("successors of id {} by links are {other:?}, its links are {want:?}", p.id.index())));
        }
    }
    Ok(succ.into_iter().map(|s| { let k = s.id.index(); (s, k) }).collect())
}

/// Every id reachable by walking successors from `from`, compared with reachability in the model.
fn walk<K: Key, S: Source<Node = Node<K>>>(src: &S, m: &M, from: usize, u: usize, c: &mut Case, log: &Log) -> R {
    let mut want = BTreeSet::from([from]);
    let mut q = VecDeque::from([from]);
    while let Some(k) = q.pop_front() {
        if let Some(uid) = m.get(&k) {
            for e in edges_of(*uid, u) {
                if want.insert(e) {
                    q.push_back(e);
                }
            }
        }
    }
    let mut got = BTreeSet::from([from]);
    let mut q = VecDeque::from([NodeProxy::new(src, K::make(from, 1))]);
    while let Some(p) = q.pop_front() {
        let k = p.id.index();
        if p.is_virtual() == m.contains_key(&k) {
            return Err(log.bad(format!("walk: handle of id {k} virtual={} but the source holds {:?}", p.is_virtual(), m.get(&k))));
        }
        if p.try_deref().map(|n| (n.id.index(), n.uid)) != m.get(&k).map(|v| (k, *v)) {
            return Err(log.bad(format!("walk: handle of id {k} gives {:?}, the source holds {:?}", p.try_deref().map(|n| n.uid), m.get(&k))));
        }
        for s in p.successors::<Edge<K>>() {
            if got.insert(s.id.index()) {
                q.push_back(s);
            }
        }
    }
    c.count("walks", 1);
    c.max("max_walk", got.len() as u64);
    if got != want {
        return Err(log.bad(format!("walk from id {from} reaches {got:?}, the edges reach {want:?}")));
    }
    Ok(())
}

fn c11_shifting<K: Key>(c: &mut Case) -> R {
    let mut r = c.rng();
    let mut log = Log::new();
    log.next = r.u64() % 10_000_000;
    let u = *r.pick(&[1, 2, 3, 5, 9, 25]);
    let src = Shifting::<K> { m: Default::default(), u, gets: Cell::new(0), _k: Default::default() };
    for _ in 0..r.below(u + 1) {
        let uid = log.uid();
        src.m.borrow_mut().insert(r.below(u), uid);
    }
    log.add(format!("source of {} u={u}: {:?}", K::NAME, src.m.borrow()));
    let mut hs: Vec<H<Shifting<K>>> = vec![];
    for _ in 0..20 + r.below(60) {
        match r.below(8) {
            0 | 1 => {
                let k = r.below(u + 1);
                hs.push(H { p: NodeProxy::new(&src, K::make(k, r.u64())), k, seen: None, may: None });
            }
            2 | 3 => {
                let k = r.below(u);
                if r.chance(65) {
                    let uid = log.uid();
                    log.add(format!("source: id {k} := uid {uid}"));
                    src.m.borrow_mut().insert(k, uid);
                } else {
                    log.add(format!("source: id {k} removed"));
                    src.m.borrow_mut().remove(&k);
                }
            }
            4 if !hs.is_empty() => {
                let i = r.below(hs.len());
                let (p, k, may) = (hs[i].p.clone(), hs[i].k, hs[i].seen.or(hs[i].may));
                log.add(format!("clone handle {i} of id {k} as handle {}", hs.len()));
                if p.id().index() != k || !std::ptr::eq(p.source, &src) {
                    return Err(log.bad(format!("clone of handle {i}: id or source differs")));
                }
                c.count("clones", 1);
                hs.push(H { p, k, seen: None, may });
            }
            5 if !hs.is_empty() => {
                let i = r.below(hs.len());
                let (virt, has) = (hs[i].p.is_virtual(), src.m.borrow().contains_key(&hs[i].k));
                c.count("virtual_tests", 1);
                if virt == has {
                    return Err(log.bad(format!("handle {i} of id {} virtual={virt}, source has it: {has}", hs[i].k)));
                }
            }
            _ if !hs.is_empty() => {
                let i = r.below(hs.len());
                let now = src.m.borrow().get(&hs[i].k).copied();
                let succ = r.chance(40);
                // A successors() call dereferences the handle.
                let lists = if succ && hs[i].seen.is_some() {
                    let v = hs[i].seen.unwrap();
                    check_succ(&hs[i].p, &src, v, u, c, &log)?
                } else {
                    vec![]
                };
                let got = hs[i].p.try_deref().map(|n| (n.id.index(), n.uid));
                let val = got.map(|g| g.1);
                log.add(format!("handle {i} of id {} gives {val:?} (source has {now:?})", hs[i].k));
                if got.is_some_and(|g| g.0 != hs[i].k) {
                    return Err(log.bad(format!("handle {i} of id {} gives node with id {:?}", hs[i].k, got)));
                }
                match hs[i].seen {
                    Some(s) => {
                        c.count("repeated_dereferences", 1);
                        if s != val {
                            return Err(log.bad(format!("handle {i} of id {} gave {s:?} first and {val:?} now", hs[i].k)));
                        }
                    }
                    None => {
                        c.count("first_dereferences", 1);
                        if val != now && Some(val) != hs[i].may {
                            return Err(log.bad(format!("first dereference of handle {i} of id {} gave {val:?}, the source holds {now:?}", hs[i].k)));
                        }
                        hs[i].seen = Some(val);
                    }
                }
                for (p, k) in lists {
                    if hs.len() < 120 {
                        hs.push(H { p, k, seen: None, may: None });
                    }
                }
            }
            _ => {}
        }
    }
    let m = src.m.borrow().clone();
    walk::<K, _>(&src, &m, r.below(u), u, c, &log)?;
    for (k, v) in &m {
        c.mixh((*k as u64) << 32 | v);
    }
    c.mixh(src.gets.get());
    if c.idx < 6 {
        c.sample = Some(log.v.iter().take(25).cloned().collect::<Vec<_>>().join("; "));
    }
    Ok(())
}

fn nested<K: Key>(ctx: &Context<'_, Node<K>>, m: &mut M, u: usize, depth: usize, r: &mut Rng, c: &mut Case, log: &mut Log) -> R {
    for _ in 0..1 + r.below(6) {
        let k = r.below(u);
        if r.chance(60) {
            let uid = log.uid();
            log.add(format!("{}save id {k} uid {uid}", "  ".repeat(depth)));
            ctx.save(node(k, uid, u));
            m.insert(k, uid);
        } else {
            log.add(format!("{}delete id {k}", "  ".repeat(depth)));
            ctx.delete(K::make(k, r.u64()));
            m.remove(&k);
        }
        c.count("pending_changes", 1);
        if r.chance(60) {
            walk::<K, _>(ctx, m, r.below(u), u, c, log)?;
            c.count("context_walks", 1);
            c.max("max_context_depth", depth as u64);
        }
        if depth < 5 && r.chance(40) {
            let mut inner = m.clone();
            let ok = r.chance(70);
            let mut res = Ok(());
            log.add(format!("{}sub", "  ".repeat(depth)));
            let out = ctx.transaction().with(|s| {
                res = nested(&s, &mut inner, u, depth + 1, r, c, log);
                if ok && res.is_ok() { Ok(()) } else { Err(Error::Noop) }
            });
            res?;
            if ok {
                out.map_err(|e| log.bad(format!("subtransaction failed: {e}")))?;
                *m = inner;
            }
            walk::<K, _>(ctx, m, r.below(u), u, c, log)?;
        }
        // A handle taken now, before later changes: fixed at its first dereference.
        if r.chance(40) {
            let k = r.below(u);
            let (early, late) = (ctx.node(K::make(k, 1)), ctx.node(K::make(k, 2)));
            let was = m.get(&k).copied();
            if early.try_deref().map(|n| n.uid) != was {
                return Err(log.bad(format!("handle of id {k} gives {:?}, pending state is {was:?}", early.try_deref().map(|n| n.uid))));
            }
            let uid = log.uid();
            log.add(format!("{}save id {k} uid {uid} with two handles open", "  ".repeat(depth)));
            ctx.save(node(k, uid, u));
            m.insert(k, uid);
            if early.try_deref().map(|n| n.uid) != was || late.try_deref().map(|n| n.uid) != Some(uid) || early.is_virtual() {
                return Err(log.bad(format!(
                    "after a save of id {k}: handle dereferenced before gives {:?} (was {was:?}), fresh one {:?} (now {uid})",
                    early.try_deref().map(|n| n.uid),
                    late.try_deref().map(|n| n.uid)
                )));
            }
            check_succ(&early, ctx, was, u, c, log)?;
            check_succ(&late, ctx, Some(uid), u, c, log)?;
            c.count("handles_across_changes", 1);
        }
    }
    Ok(())
}

fn c11_graph<K: Key>(c: &mut Case) -> R {
    let mut r = c.rng();
    let mut log = Log::new();
    log.next = r.u64() % 10_000_000;
    let u = *r.pick(&[1, 2, 4, 8, 20, 60]);
    let mut m = M::new();
    let mut g = Graph::default();
    for _ in 0..r.below(2 * u + 1) {
        let (k, uid) = (r.below(u), log.uid());
        m.insert(k, uid);
        g.insert(node::<K>(k, uid, u));
    }
    log.add(format!("graph of {} u={u}: {m:?}", K::NAME));
    for (k, v) in &m {
        c.mixh((*k as u64) << 32 | v);
    }
    for k in 0..u + 2 {
        let p = g.node(K::make(k, r.u64()));
        let want = m.get(&k).copied();
        if p.is_virtual() != want.is_none() {
            return Err(log.bad(format!("graph handle of id {k}: virtual={}, graph holds {want:?}", p.is_virtual())));
        }
        // successors before any dereference
        check_succ(&p, &g, want, u, c, &log)?;
        if p.try_deref().map(|n| (n.id.index(), n.uid)) != want.map(|w| (k, w)) {
            return Err(log.bad(format!("graph handle of id {k} gives {:?}, graph holds {want:?}", p.try_deref().map(|n| n.uid))));
        }
        let q = p.clone();
        if q.try_deref().map(|n| n.uid) != want {
            return Err(log.bad(format!("clone of the graph handle of id {k} gives {:?}, graph holds {want:?}", q.try_deref().map(|n| n.uid))));
        }
        if r.chance(30) {
            walk::<K, _>(&g, &m, k, u, c, &log)?;
        }
    }
    let s = Schema::from(g);
    {
        let rd = s.read();
        walk::<K, _>(&*rd, &m, r.below(u), u, c, &log)?;
    }
    let mut res = Ok(());
    let mut inner = m.clone();
    let _ = s.transaction().with(|ctx| {
        res = nested(&ctx, &mut inner, u, 0, &mut r, c, &mut log);
        Ok(())
    });
    res?;
    let rd = s.read();
    for k in 0..u {
        walk::<K, _>(&*rd, &inner, k, u, c, &log)?;
        c.mixh(inner.get(&k).copied().unwrap_or(0));
    }
    if c.idx < 6 {
        c.sample = Some(log.v.iter().take(25).cloned().collect::<Vec<_>>().join("; "));
    }
    Ok(())
}

/// A source that gives a different value at every lookup, shared by threads.
struct Fresh(AtomicU64);
impl Source for Fresh {
    type Node = Node<u32>;
    fn get(&self, id: &u32) -> Option<Node<u32>> {
        let n = self.0.fetch_add(1, Ordering::SeqCst);
        for _ in 0..(mix(n) % 3) {
            std::thread::yield_now();
        }
        if *id % 5 == 4 && n % 2 == 0 {
            return None;
        }
        Some(Node::new(*id as usize, 0, n + 1, 0, 7))
    }
    fn contains(&self, _: &u32) -> bool {
        true
    }
}

pub fn c11_threads(c: &mut Case, threads: usize) -> R {
    let src = Fresh(AtomicU64::new(0));
    let k = c.seed % 10;
    let p = NodeProxy::new(&src, k as u32);
    let bar = Barrier::new(threads);
    let tok = c.thread_token();
    let got: Vec<(Option<u64>, Vec<usize>, Option<u64>)> = std::thread::scope(|s| {
        let hs: Vec<_> = (0..threads)
            .map(|t| {
                let (p, bar, tok) = (&p, &bar, tok.clone());
                s.spawn(move || {
                    tok.enter();
                    bar.wait();
                    let early = (t % 2 == 0).then(|| p.successors::<Edge<u32>>().iter().map(|x| x.id as usize).collect::<Vec<_>>());
                    let a = p.try_deref().map(|n| n.uid);
                    let list = early.unwrap_or_else(|| p.successors::<Edge<u32>>().iter().map(|x| x.id as usize).collect());
                    (a, list, p.try_deref().map(|n| n.uid))
                })
            })
            .collect();
        hs.into_iter().map(|h| h.join().unwrap()).collect()
    });
    c.count("concurrent_dereferences", got.len() as u64 * 2);
    let first = got[0].0;
    c.mixh(first.unwrap_or(0) ^ k << 40);
    let want = first.map(|v| edges_of(v, 7)).unwrap_or_default();
    for (a, l, b) in &got {
        if *a != first || *b != first || *l != want {
            return Err(Violation::new(
                format!("threads dereferencing one handle saw {:?}", got.iter().map(|g| (g.0, g.2)).collect::<Vec<_>>()),
                format!("handle of id {k}; successors {:?}, expected {want:?}", got.iter().map(|g| &g.1).collect::<Vec<_>>()),
            ));
        }
    }
    Ok(())
}

pub fn c11(c: &mut Case) -> R {
    c.nontrivial = true;
    macro_rules! k {
        ($f:ident) => {
            match c.seed % 4 {
                0 => $f::<u32>(c),
                1 => $f::<String>(c),
                2 => $f::<Rev>(c),
                _ => $f::<Ci>(c),
            }
        };
    }
    match (c.seed >> 8) % 16 {
        0..=6 => k!(c11_shifting),
        7..=14 => k!(c11_graph),
        _ => c11_threads(c, 4),
    }
}
