//! C18: strict serializability of transactions and guarded accesses on one schema shared by
//! threads.
//!
//! `Schema` is not `Sync` because its triggers and resources are unbounded trait objects; a schema
//! with neither is shared here through a wrapper, which is what its internal lock exists for.
//!
//! Oracle: every committed change appends its own number to a list stored in the graph (node 0,
//! and node 1 for every other change), so the final list is the version order; each history is then
//! replayed in that order against a map, every observation is compared with the state at its
//! position, and positions are compared with real time.

use std::collections::BTreeMap;
use std::panic::{catch_unwind, resume_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::{Arc, Barrier};

use plotline::graph::{Graph, Source};
use plotline::id::Identify;
use plotline::schema::ops::{delete::Delete, save::Save};
use plotline::schema::transaction::{Context, Transaction};
use plotline::schema::{Error, Schema};
use vcommon::{mix, Case, Rng, Violation};

#[derive(Clone, Debug)]
pub struct Cell {
    id: u32,
    uid: u64,
    list: Arc<Vec<u64>>,
}
impl Identify for Cell {
    type Id = u32;
    fn id(&self) -> &u32 {
        &self.id
    }
}

struct Shared(Schema<Cell>);
// SAFETY: the schema has no triggers and no resources; everything left in it is Send + Sync.
unsafe impl Sync for Shared {}

const LOG: u32 = 1000;
/// Many nodes always written together: they stand for one, `BULK`, in the history.
const FILL: u32 = 2000;
const BULK: u32 = 1999;

fn fill(ctx: &Context<'_, Cell>, rec: &mut Rec, n: u32, r: &mut Rng) {
    if n == 0 || r.chance(30) {
        return;
    }
    let gone = r.chance(15);
    for i in 0..n {
        if gone {
            ctx.delete(FILL + i);
        } else {
            ctx.save(Cell { id: FILL + i, uid: rec.num, list: Default::default() });
        }
    }
    rec.writes.push((BULK, (!gone).then_some(rec.num)));
}

/// The one value of all those nodes.
fn bulk(seen: &[Option<u64>]) -> Result<Option<u64>, String> {
    match seen.iter().find(|x| **x != seen[0]) {
        Some(x) => Err(format!("of {} nodes always written together, {} hold {:?}, others {x:?}", seen.len(), seen.iter().filter(|x| **x == seen[0]).count(), seen[0])),
        None => Ok(seen.first().copied().flatten()),
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Kind {
    /// Reads, writes, appends to the log, commits.
    Tx,
    /// Writes, then fails.
    Rollback,
    Panic,
    /// A transaction that only reads.
    ReadTx,
    /// Schema::read, scanned twice.
    Read,
    /// Schema::write used directly.
    Write,
    WritePanic,
    /// A transaction of nested subtransactions, some of which fail.
    Nested,
    /// Save and Delete operations inside a transaction.
    Ops,
    /// A transaction with an early context, dropped without running.
    Abandon,
}

#[derive(Clone, Debug)]
#[allow(dead_code)]
struct Rec {
    num: u64,
    thread: usize,
    kind: Kind,
    start: u64,
    end: u64,
    /// Log length seen; the position in the order.
    pos: Option<usize>,
    log: Vec<u64>,
    reads: Vec<(u32, Option<u64>)>,
    writes: Vec<(u32, Option<u64>)>,
    committed: bool,
    bad: Option<String>,
}

fn jitter(r: &mut Rng) {
    match r.below(12) {
        0 => std::thread::yield_now(),
        1 => {
            for _ in 0..r.below(300) {
                std::hint::spin_loop();
            }
        }
        2 if !cfg!(miri) => std::thread::sleep(std::time::Duration::from_micros(r.below(60) as u64)),
        _ => {}
    }
}

fn append(ctx: &Context<'_, Cell>, rec: &mut Rec) {
    let old = ctx.get(&LOG).map(|c| c.list.clone()).unwrap_or_default();
    rec.pos = Some(old.len());
    rec.log = old.to_vec();
    let mut l = (*old).clone();
    l.push(rec.num);
    ctx.save(Cell { id: LOG, uid: rec.num, list: Arc::new(l) });
}

fn body(ctx: &Context<'_, Cell>, rec: &mut Rec, r: &mut Rng, u: u32, uid: &mut u64, writes: bool) {
    for _ in 0..1 + r.below(4) {
        let k = r.below(u as usize) as u32;
        // Own pending writes are C02's business; record reads of ids not written here yet.
        if !rec.writes.iter().any(|w| w.0 == k) {
            rec.reads.push((k, ctx.get(&k).map(|c| c.uid)));
        }
        jitter(r);
        if writes {
            if r.chance(70) {
                *uid += 1;
                ctx.save(Cell { id: k, uid: *uid, list: Default::default() });
                rec.writes.push((k, Some(*uid)));
            } else {
                ctx.delete(k);
                rec.writes.push((k, None));
            }
        }
        jitter(r);
    }
}

fn one(s: &Schema<Cell>, rec: &mut Rec, r: &mut Rng, u: u32, f: u32, uid: &mut u64) {
    let first = r.chance(50);
    match rec.kind {
        Kind::Tx | Kind::Rollback | Kind::Panic => {
            let kind = rec.kind;
            let out = catch_unwind(AssertUnwindSafe(|| {
                s.transaction().with(|ctx| {
                    if first {
                        append(&ctx, rec);
                    }
                    if first {
                        fill(&ctx, rec, f, r);
                    }
                    body(&ctx, rec, r, u, uid, true);
                    if !first {
                        append(&ctx, rec);
                        fill(&ctx, rec, f, r);
                    }
                    match kind {
                        Kind::Tx => Ok(()),
                        Kind::Rollback => Err(Error::Noop),
                        _ => resume_unwind(Box::new(())),
                    }
                })
            }));
            rec.committed = matches!(out, Ok(Ok(())));
            if rec.committed != (kind == Kind::Tx) {
                rec.bad = Some(format!("{kind:?} ended with {out:?}"));
            }
        }
        Kind::Abandon => {
            let bg = s.transaction();
            {
                let ctx = Context::from(&bg);
                append(&ctx, rec);
                body(&ctx, rec, r, u, uid, true);
            }
            drop(bg);
        }
        Kind::Nested => {
            let out = s.transaction().with(|ctx| {
                if first {
                    append(&ctx, rec);
                }
                for _ in 0..1 + r.below(3) {
                    let ok = r.chance(65);
                    let keep = rec.writes.len();
                    let _ = ctx.transaction().with(|sub| {
                        // Reads inside see the enclosing pending writes, which are recorded.
                        body(&sub, rec, r, u, uid, true);
                        if ok { Ok(()) } else { Err(Error::Noop) }
                    });
                    if !ok {
                        rec.writes.truncate(keep);
                    }
                }
                if !first {
                    append(&ctx, rec);
                }
                Ok(())
            });
            rec.committed = true;
            if out.is_err() {
                rec.bad = Some(format!("nested transaction ended with {out:?}"));
            }
        }
        Kind::Ops => {
            let out = s.transaction().with(|ctx| {
                append(&ctx, rec);
                for _ in 0..1 + r.below(3) {
                    let k = r.below(u as usize) as u32;
                    if r.chance(60) {
                        *uid += 1;
                        Save::new(Cell { id: k, uid: *uid, list: Default::default() }).execute(ctx.transaction())?;
                        rec.writes.push((k, Some(*uid)));
                    } else {
                        let known = rec.writes.iter().any(|w| w.0 == k);
                        let ok = Delete::<Cell>::new(k).execute(ctx.transaction()).is_ok();
                        if ok {
                            rec.writes.push((k, None));
                        } else if !known {
                            rec.reads.push((k, None));
                        }
                    }
                    jitter(r);
                }
                Ok(())
            });
            rec.committed = true;
            if out.is_err() {
                rec.bad = Some(format!("operations ended with {out:?}"));
            }
        }
        Kind::ReadTx => {
            let _ = s.transaction().with(|ctx| {
                let l = ctx.get(&LOG).map(|c| c.list.clone()).unwrap_or_default();
                rec.pos = Some(l.len());
                rec.log = l.to_vec();
                body(&ctx, rec, r, u, uid, false);
                if f > 0 {
                    let seen: Vec<_> = [0, f / 2, f - 1].iter().map(|i| ctx.get(&(FILL + i)).map(|c| c.uid)).collect();
                    match bulk(&seen) {
                        Ok(v) => rec.reads.push((BULK, v)),
                        Err(e) => rec.bad = Some(e),
                    }
                }
                Ok(())
            });
        }
        Kind::Read => {
            let g = s.read();
            let scan = |g: &Graph<Cell>| -> (Vec<u64>, Vec<(u32, u64)>) {
                let mut log = vec![];
                let mut v = vec![];
                for c in g {
                    if c.id == LOG {
                        log = c.list.to_vec();
                    } else {
                        v.push((c.id, c.uid));
                    }
                }
                (log, v)
            };
            let a = scan(&g);
            jitter(r);
            jitter(r);
            let b = scan(&g);
            if a != b {
                rec.bad = Some(if f > 0 { "a reader saw the graph change while it held access".into() } else { format!("a reader saw the graph change while it held access: {a:?} then {b:?}") });
            }
            rec.pos = Some(a.0.len());
            rec.log = a.0;
            if f > 0 {
                let mut seen = vec![None; f as usize];
                for (k, v) in a.1.iter().filter(|x| x.0 >= FILL) {
                    seen[(*k - FILL) as usize] = Some(*v);
                }
                match bulk(&seen) {
                    Ok(v) => rec.reads.push((BULK, v)),
                    Err(e) => rec.bad = Some(e),
                }
            }
            for k in 0..u {
                rec.reads.push((k, a.1.iter().find(|x| x.0 == k).map(|x| x.1)));
            }
        }
        Kind::Write | Kind::WritePanic => {
            let kind = rec.kind;
            let _ = catch_unwind(AssertUnwindSafe(|| {
                let mut g = s.write();
                let old = g.get(&LOG).map(|c| c.list.clone()).unwrap_or_default();
                rec.pos = Some(old.len());
                rec.log = old.to_vec();
                let mut l = (*old).clone();
                l.push(rec.num);
                g.insert(Cell { id: LOG, uid: rec.num, list: Arc::new(l) });
                for _ in 0..1 + r.below(3) {
                    let k = r.below(u as usize) as u32;
                    let known = rec.writes.iter().any(|w| w.0 == k);
                    let old = if r.chance(60) {
                        *uid += 1;
                        rec.writes.push((k, Some(*uid)));
                        g.insert(Cell { id: k, uid: *uid, list: Default::default() })
                    } else {
                        rec.writes.push((k, None));
                        g.remove(&k)
                    };
                    if !known {
                        rec.reads.push((k, old.map(|c| c.uid)));
                    }
                    jitter(r);
                }
                if kind == Kind::WritePanic {
                    resume_unwind(Box::new(()));
                }
            }));
            rec.committed = true;
        }
    }
}

pub struct Size {
    pub threads: usize,
    pub per: usize,
}

pub fn run(c: &mut Case, size: Size) -> Result<(), Violation> {
    let mut r = c.rng();
    let u = *r.pick(&[1u32, 2, 3, 5]);
    let f = match () {
        _ if cfg!(miri) => *r.pick(&[0, 0, 3]),
        _ if r.chance(88) => 0,
        _ => *r.pick(&[2u32, 3, 20, 63, 65, 129, 300, 1100]),
    };
    c.count("cases_of_large_commits", (f > 60) as u64);
    let mut init = BTreeMap::new();
    let mut g = Graph::default();
    for k in 0..u {
        if r.chance(50) {
            init.insert(k, 1 + k as u64);
            g.insert(Cell { id: k, uid: 1 + k as u64, list: Default::default() });
        }
    }
    let shared = Shared(Schema::from(g));
    let clock = AtomicU64::new(1);
    let bar = Barrier::new(size.threads);
    let tok = c.thread_token();
    let seed = c.seed;
    let mixw: [u32; 10] = *r.pick(&[[6, 2, 1, 2, 4, 2, 1, 2, 2, 1], [10, 0, 0, 0, 4, 0, 0, 0, 0, 0], [3, 3, 3, 3, 6, 1, 1, 3, 1, 2]]);
    let recs: Vec<Vec<Rec>> = std::thread::scope(|s| {
        let hs: Vec<_> = (0..size.threads)
            .map(|t| {
                let (shared, clock, bar, tok) = (&shared, &clock, &bar, tok.clone());
                s.spawn(move || {
                    tok.enter();
                    let mut r = Rng::new(mix(seed ^ (t as u64 + 1) * 7919));
                    let mut uid = (t as u64 + 1) << 40;
                    let mut out = vec![];
                    bar.wait();
                    for i in 0..size.per {
                        let kind = [
                            Kind::Tx, Kind::Rollback, Kind::Panic, Kind::ReadTx, Kind::Read, Kind::Write, Kind::WritePanic, Kind::Nested, Kind::Ops, Kind::Abandon,
                        ][r.weighted(&mixw)];
                        let mut rec = Rec {
                            num: (t * 10_000 + i + 1) as u64,
                            thread: t,
                            kind,
                            start: clock.fetch_add(1, Ordering::SeqCst),
                            end: 0,
                            pos: None,
                            log: vec![],
                            reads: vec![],
                            writes: vec![],
                            committed: false,
                            bad: None,
                        };
                        jitter(&mut r);
                        one(&shared.0, &mut rec, &mut r, u, f, &mut uid);
                        rec.end = clock.fetch_add(1, Ordering::SeqCst);
                        out.push(rec);
                    }
                    out
                })
            })
            .collect();
        hs.into_iter().map(|h| h.join().expect("thread")).collect()
    });
    let mut recs: Vec<Rec> = recs.into_iter().flatten().collect();
    recs.sort_by_key(|x| x.start);
    let fin: (Vec<u64>, BTreeMap<u32, u64>) = {
        let g = shared.0.read();
        let mut log = vec![];
        let mut m = BTreeMap::new();
        for c in &*g {
            if c.id == LOG {
                log = c.list.to_vec();
            } else {
                m.insert(c.id, c.uid);
            }
        }
        if f > 0 {
            let seen: Vec<_> = (FILL..FILL + f).map(|k| m.remove(&k)).collect();
            if let Some(v) = bulk(&seen).map_err(|e| Violation::new(format!("at the end: {e}"), "".to_string()))? {
                m.insert(BULK, v);
            }
        }
        (log, m)
    };
    c.count("operations", recs.len() as u64);
    c.count("commits", recs.iter().filter(|x| x.committed).count() as u64);
    c.count("readers", recs.iter().filter(|x| x.kind == Kind::Read).count() as u64);
    c.count("failed_transactions", recs.iter().filter(|x| matches!(x.kind, Kind::Rollback | Kind::Panic | Kind::Abandon)).count() as u64);
    let overlaps = recs.windows(2).filter(|w| w[1].start < w[0].end).count();
    c.count("overlapping_pairs", overlaps as u64);
    let switches = fin.0.windows(2).filter(|w| w[0] / 10_000 != w[1] / 10_000).count();
    c.count("writer_switches_in_final_order", switches as u64);
    for x in &fin.0 {
        c.mixh(*x);
    }
    for x in &recs {
        c.mixh(x.pos.unwrap_or(0) as u64);
    }
    c.nontrivial = overlaps > 0;
    if c.idx < 6 {
        c.sample = Some(recs.iter().take(12).map(|x| format!("{:?}", Rec { log: vec![], ..x.clone() })).collect::<Vec<_>>().join("\n"));
    }
    verify(&recs, &fin, &init, u).map_err(|m| {
        let lines: Vec<String> = recs.iter().map(|x| format!("{:?}", Rec { log: vec![], ..x.clone() })).collect();
        Violation::new(m, format!("initial {init:?}\nfinal order {:?}\nfinal {:?}\n{}", fin.0, fin.1, lines.join("\n")))
    })
}

fn verify(recs: &[Rec], fin: &(Vec<u64>, BTreeMap<u32, u64>), init: &BTreeMap<u32, u64>, u: u32) -> Result<(), String> {
    let by: BTreeMap<u64, &Rec> = recs.iter().map(|x| (x.num, x)).collect();
    for x in recs {
        if let Some(b) = &x.bad {
            return Err(b.clone());
        }
        let n = fin.0.iter().filter(|y| **y == x.num).count();
        if x.committed && n == 0 {
            return Err(format!("committed change {} was lost", x.num));
        }
        if n > 1 {
            return Err(format!("change {} is in effect {n} times", x.num));
        }
        if !x.committed && n > 0 {
            return Err(format!("uncommitted change {} ({:?}) is in the graph", x.num, x.kind));
        }
        if x.log.len() > fin.0.len() || x.log[..] != fin.0[..x.log.len()] {
            return Err(format!("{:?} {} observed changes {:?}, not a prefix of the final order {:?}", x.kind, x.num, x.log, fin.0));
        }
    }
    // Replay.
    let mut states: Vec<BTreeMap<u32, u64>> = vec![init.clone()];
    for num in &fin.0 {
        let x = by.get(num).ok_or_else(|| format!("the graph holds a change {num} nobody made"))?;
        let mut s = states.last().unwrap().clone();
        if x.pos != Some(states.len() - 1) {
            return Err(format!("change {num} observed {:?} earlier changes but is number {}", x.pos, states.len() - 1));
        }
        for (k, v) in &x.writes {
            match v {
                Some(v) => s.insert(*k, *v),
                None => s.remove(k),
            };
        }
        states.push(s);
    }
    let last = states.last().unwrap();
    if *last != fin.1 {
        return Err(format!("the graph ends as {:?}, the changes in order give {last:?}", fin.1));
    }
    for x in recs {
        let Some(p) = x.pos else { continue };
        for (k, got) in &x.reads {
            let want = states[p].get(k).copied();
            if *got != want {
                return Err(format!("{:?} {} read id {k} as {got:?}; after the {p} changes it observed, it is {want:?} (u={u})", x.kind, x.num));
            }
        }
    }
    // Real time: an operation that ended before another began is not ordered after it.
    // Position of a write: p + 0.5 (before all that observe p + 1); of a read: p.
    let key = |x: &Rec| x.pos.map(|p| 2 * p as u64 + x.committed as u64);
    let mut done: Vec<(u64, u64, u64)> = recs.iter().filter_map(|x| key(x).map(|k| (x.end, k, x.num))).collect();
    done.sort();
    let mut best: Vec<(u64, u64, u64)> = vec![];
    for d in &done {
        let m = best.last().map(|b: &(u64, u64, u64)| b.1).unwrap_or(0);
        if best.is_empty() || d.1 > m {
            best.push(*d);
        }
    }
    for x in recs {
        let Some(k) = key(x) else { continue };
        let i = best.partition_point(|b| b.0 < x.start);
        if i > 0 {
            let b = best[i - 1];
            if b.1 > k {
                return Err(format!("{} ended before {} began but is ordered after it", b.2, x.num));
            }
        }
    }
    Ok(())
}

pub fn c18(c: &mut Case) -> Result<(), Violation> {
    let size = if c.idx % 50 == 49 { Size { threads: 6, per: 150 } } else { Size { threads: 2 + (c.seed % 4) as usize, per: 4 + ((c.seed >> 9) % 20) as usize } };
    run(c, size)
}
