//! C02, C03, C19: transactions whose contexts are used in any order. Inside a subtransaction every
//! context around it, and every sibling still open, goes on reading, writing, opening subtransactions
//! and running operations; each level is compared with an overlay of its own after every step.

use std::any::Any;
use std::cell::Cell;
use std::collections::BTreeMap;
use std::panic::{catch_unwind, resume_unwind, AssertUnwindSafe};

use plotline::deref::{TryDeref, With};
use plotline::graph::{Graph, Source};
use plotline::id::Identify;
use plotline::prelude::{AfterDelete, AfterSave, BeforeDelete, BeforeSave, Ctx, Transaction};
use plotline::schema::ops::{delete::Delete, save::Save};
use plotline::schema::transaction::{Context, Foreground, Target};
use plotline::schema::{Error, Result as SchemaResult, Schema};
use vcommon::{Case, Rng, Violation};

thread_local! {
    static LIVE: Cell<i64> = const { Cell::new(0) };
}

#[derive(Debug)]
pub struct N {
    id: u8,
    v: u64,
}
impl N {
    fn new(id: u8, v: u64) -> N {
        LIVE.with(|l| l.set(l.get() + 1));
        N { id, v }
    }
}
impl Clone for N {
    fn clone(&self) -> N {
        N::new(self.id, self.v)
    }
}
impl Drop for N {
    fn drop(&mut self) {
        LIVE.with(|l| l.set(l.get() - 1));
    }
}
impl Identify for N {
    type Id = u8;
    fn id(&self) -> &u8 {
        &self.id
    }
}

const IDS: u8 = 6;

struct Level {
    parent: Option<usize>,
    changes: BTreeMap<u8, Option<u64>>,
}

struct World<'c> {
    c: &'c mut Case,
    r: Rng,
    next: u64,
    graph: BTreeMap<u8, u64>,
    levels: Vec<Level>,
    triggers: bool,
    left: usize,
    log: Vec<String>,
    bad: Option<String>,
}

/// The contexts in use, outermost first; several may belong to one level.
type Open<'o> = [(&'o Context<'o, N>, usize)];

impl World<'_> {
    fn fresh(&mut self) -> u64 {
        self.next += 1;
        self.next
    }
    fn fail(&mut self, m: String) {
        if self.bad.is_none() {
            self.bad = Some(m);
        }
    }
    fn get(&self, level: Option<usize>, id: u8) -> Option<u64> {
        let mut at = level;
        while let Some(l) = at {
            if let Some(x) = self.levels[l].changes.get(&id) {
                return *x;
            }
            at = self.levels[l].parent;
        }
        self.graph.get(&id).copied()
    }
    fn push(&mut self, parent: Option<usize>) -> usize {
        self.levels.push(Level { parent, changes: BTreeMap::new() });
        self.levels.len() - 1
    }
    /// What becomes of a level when its transaction ends.
    fn close(&mut self, level: usize, ok: bool) {
        let changes = std::mem::take(&mut self.levels[level].changes);
        self.c.count(if ok { "tangled_commits" } else { "tangled_failures" }, 1);
        if !ok {
            return;
        }
        match self.levels[level].parent {
            Some(p) => self.levels[p].changes.extend(changes),
            None => {
                for (k, v) in changes {
                    match v {
                        Some(v) => self.graph.insert(k, v),
                        None => self.graph.remove(&k),
                    };
                }
            }
        }
    }
    fn check(&mut self, open: &Open<'_>) {
        for (i, (ctx, level)) in open.iter().enumerate() {
            for id in 0..IDS {
                let want = self.get(Some(*level), id);
                let got = ctx.get(&id).map(|n| if n.id == id { n.v } else { u64::MAX });
                let has = ctx.contains(&id);
                let node = ctx.node(id);
                let read = node.try_deref().map(|n| n.v);
                if got != want || has != want.is_some() || read != want || node.is_virtual() != want.is_none() {
                    let depth = i;
                    self.fail(format!("context {depth} of {}: id {id} gives {got:?}, exists {has}, handle {read:?}, expected {want:?}", open.len()));
                    return;
                }
                self.c.count("tangled_reads", 1);
            }
        }
    }
    /// Runs a transaction to its end; its body says what it is to return.
    fn run<Tx: Transaction<Target = N>>(&mut self, tx: Tx, level: usize, body: impl FnOnce(&mut Self, Context<'_, N>) -> SchemaResult<u64>) -> Result<SchemaResult<u64>, Box<dyn Any + Send>> {
        let mut said: Option<Result<u64, String>> = None;
        let r = catch_unwind(AssertUnwindSafe(|| {
            tx.with(|ctx| {
                let x = body(self, ctx);
                said = Some(x.as_ref().map(|x| *x).map_err(|e| e.to_string()));
                x
            })
        }));
        self.close(level, matches!(said, Some(Ok(_))));
        let got = r.as_ref().ok().map(|r| r.as_ref().map(|x| *x).map_err(|e| e.to_string()));
        if got != said {
            self.fail(format!("a transaction whose body gives {said:?} (none: panics) gives {got:?}"));
        }
        if said.is_none() {
            self.c.count("tangled_panics", 1);
        }
        r
    }
}

/// A subtransaction of the given context, by one of the two ways to get one.
fn sub<R>(w: &mut World<'_>, ctx: &Context<'_, N>, f: impl FnOnce(&mut World<'_>, Foreground<'_, N>) -> R) -> R {
    if w.r.chance(25) {
        let c = Ctx::from(ctx);
        let tx = c.transaction();
        f(w, tx)
    } else {
        f(w, ctx.transaction())
    }
}

fn with_targets<'a>(w: &mut World<'_>, ctx: Context<'a, N>) -> Context<'a, N> {
    let mut ctx = ctx;
    for _ in 0..*w.r.pick(&[0, 0, 0, 1, 2, 3]) {
        let v = w.fresh();
        ctx = ctx.with_target(N::new(0, v));
        w.c.count("tangled_targets", 1);
    }
    ctx
}

fn go(w: &mut World<'_>, open: &Open<'_>) -> SchemaResult<u64> {
    w.check(open);
    for _ in 0..1 + w.r.below(7) {
        if w.left == 0 || w.bad.is_some() {
            break;
        }
        w.left -= 1;
        let i = if w.r.chance(45) { open.len() - 1 } else { w.r.below(open.len()) };
        let (ctx, level) = open[i];
        let outer = open[open.len() - 1].1 != level;
        let at = format!("{}/{}", i, open.len());
        let id = w.r.below(IDS as usize) as u8;
        match w.r.below(12) {
            0..=2 => {
                let v = w.fresh();
                w.log.push(format!("{at}: save {id} = {v}"));
                ctx.save(N::new(id, v));
                w.levels[level].changes.insert(id, Some(v));
                w.c.count("outer_changes", outer as u64);
            }
            3 => {
                w.log.push(format!("{at}: delete {id}"));
                ctx.delete(id);
                w.levels[level].changes.insert(id, None);
                w.c.count("outer_changes", outer as u64);
            }
            4 => {
                let (v, save) = (w.fresh(), w.r.chance(60));
                let was = w.get(Some(level), id);
                w.log.push(format!("{at}: {} operation on {id} = {v}", if save { "save" } else { "delete" }));
                w.c.count("tangled_operations", 1);
                let got = sub(w, ctx, |_, tx| if save { Save::new(N::new(id, v)).execute(tx) } else { Delete::new(id).execute(tx) });
                let seen = if save { Some(v) } else { was };
                let want = match seen {
                    None => Err("nothing to apply"),
                    Some(x) if w.triggers && x % 7 == 0 => Err("before"),
                    Some(x) if w.triggers && x % 11 == 0 => Err("after"),
                    Some(_) => Ok(()),
                };
                if got.as_ref().map(|x| *x).map_err(|e| e.to_string()) != want.map_err(|e: &str| e.to_string()) {
                    w.fail(format!("operation gives {got:?} instead of {want:?}"));
                }
                if want.is_ok() {
                    w.levels[level].changes.insert(id, save.then_some(v));
                }
            }
            5 => {
                w.log.push(format!("{at}: subtransaction made and dropped"));
                sub(w, ctx, |w, tx| {
                    if w.r.chance(60) {
                        let l = w.push(Some(level));
                        let v = w.fresh();
                        let c = Context::from(&tx);
                        let c = with_targets(w, c);
                        c.save(N::new(id, v));
                        w.levels[l].changes.insert(id, Some(v));
                        let all: Vec<_> = open.iter().copied().chain([(&c, l)]).collect();
                        w.check(&all);
                    }
                });
                w.c.count("tangled_abandoned", 1);
            }
            6..=8 if open.len() < 7 => {
                w.log.push(format!("{at}: subtransaction"));
                w.c.count("subtransactions_of_outer_contexts", outer as u64);
                let l = w.push(Some(level));
                let r = sub(w, ctx, |w, tx| {
                    w.run(tx, l, |w, c| {
                        let c = with_targets(w, c);
                        let all: Vec<_> = open.iter().copied().chain([(&c, l)]).collect();
                        go(w, &all)
                    })
                });
                w.check(open);
                match r {
                    // Errors and panics may go on through the transactions around.
                    Err(p) if w.r.chance(30) => resume_unwind(p),
                    Ok(Err(e)) if w.r.chance(30) => return Err(e),
                    _ => {}
                }
            }
            9 | 10 if open.len() < 6 => {
                // Contexts taken from the transaction by hand, one or two for the same changes.
                w.log.push(format!("{at}: subtransaction by hand"));
                w.c.count("contexts_by_hand", 1);
                let l = w.push(Some(level));
                let r = sub(w, ctx, |w, tx| {
                    let inner = {
                        let a = Context::from(&tx);
                        let a = with_targets(w, a);
                        let two = w.r.chance(40);
                        let b = two.then(|| Context::from(&tx));
                        let mut all: Vec<_> = open.iter().copied().chain([(&a, l)]).collect();
                        if let Some(b) = &b {
                            all.push((b, l));
                        }
                        catch_unwind(AssertUnwindSafe(|| go(w, &all)))
                    };
                    w.check(open);
                    if inner.is_err() || w.r.chance(25) {
                        w.log.push(format!("{at}: it is dropped"));
                        drop(tx);
                        w.close(l, false);
                        return inner;
                    }
                    w.log.push(format!("{at}: it is run"));
                    w.run(tx, l, |w, c| {
                        let all: Vec<_> = open.iter().copied().chain([(&c, l)]).collect();
                        go(w, &all)
                    })
                });
                w.check(open);
                match r {
                    Err(p) if w.r.chance(30) => resume_unwind(p),
                    Ok(Err(e)) if w.r.chance(30) => return Err(e),
                    _ => {}
                }
            }
            _ => {
                // Handles taken now and used after the next change.
                let h = ctx.node(id);
                let early = w.r.chance(50).then(|| h.try_deref().map(|n| n.v));
                let v = w.fresh();
                let c = open[w.r.below(open.len())];
                w.log.push(format!("{at}: handle of {id}, then save {id} = {v}"));
                c.0.save(N::new(id, v));
                w.levels[c.1].changes.insert(id, Some(v));
                let late = h.try_deref().map(|n| n.v);
                let now = w.get(Some(level), id);
                let fine = match early {
                    Some(Some(x)) => late == Some(x),
                    // Whether a miss is remembered is not specified.
                    Some(None) => late.is_none() || late == now,
                    None => late == now,
                };
                if !fine {
                    w.fail(format!("a handle of {id} gives {late:?}, the context {now:?} (first {early:?})"));
                }
            }
        }
        w.check(open);
    }
    let n = w.fresh();
    match w.r.below(10) {
        0 | 1 => Err(Error::custom(format!("body {n} fails"))),
        2 => Err(Error::Noop),
        3 => resume_unwind(Box::new(n)),
        _ => Ok(n),
    }
}

/// Some values are refused.
fn veto(t: &Target<N>, by: u64, what: &str) -> SchemaResult<()> {
    match t.with(|n| n.v % by == 0) {
        Some(true) => Err(Error::custom(what)),
        _ => Ok(()),
    }
}

pub fn tangle(c: &mut Case) -> Result<(), Violation> {
    let mut r = c.rng();
    LIVE.with(|l| l.set(0));
    let triggers = r.chance(40);
    let mut w = World { c, r, next: 0, graph: BTreeMap::new(), levels: vec![], triggers, left: 0, log: vec![], bad: None };
    let mut g = Graph::default();
    for id in 0..IDS {
        if w.r.chance(50) {
            let v = w.fresh();
            w.graph.insert(id, v);
            g.insert(N::new(id, v));
        }
    }
    let mut schema: Schema<N> = g.into();
    if triggers {
        schema = schema
            .with_trigger(BeforeSave, |_: Ctx<N>, t: Target<N>| veto(&t, 7, "before"))
            .with_trigger(AfterSave, |_: Ctx<N>, t: Target<N>| veto(&t, 11, "after"))
            .with_trigger(BeforeDelete, |_: Ctx<N>, t: Target<N>| veto(&t, 7, "before"))
            .with_trigger(AfterDelete, |_: Ctx<N>, t: Target<N>| veto(&t, 11, "after"));
    }
    for _ in 0..1 + w.r.below(3) {
        w.left = 35;
        w.levels.clear();
        let l = w.push(None);
        w.log.push("transaction".into());
        w.c.count("tangled_transactions", 1);
        let tx = schema.transaction();
        if w.r.chance(25) {
            w.log.push("by hand".into());
            let r = {
                let a = Context::from(&tx);
                let b = Context::from(&tx);
                let b = with_targets(&mut w, b);
                catch_unwind(AssertUnwindSafe(|| go(&mut w, &[(&a, l), (&b, l)])))
            };
            if r.is_err() || w.r.chance(30) {
                drop(tx);
                w.close(l, false);
            } else {
                let _ = w.run(tx, l, |w, c| go(w, &[(&c, l)]));
            }
        } else {
            let _ = w.run(tx, l, |w, c| {
                let c = with_targets(w, c);
                go(w, &[(&c, l)])
            });
        }
        let got: BTreeMap<u8, u64> = schema.read().into_iter().map(|n| (n.id, n.v)).collect();
        if got != w.graph {
            let m = format!("the graph holds {got:?} instead of {:?}", w.graph);
            w.fail(m);
        }
        let live = LIVE.with(|l| l.get());
        w.c.count("tangled_release_checks", 1);
        if live != w.graph.len() as i64 {
            let m = format!("{live} node values are alive after the transaction, the graph holds {}", w.graph.len());
            w.fail(m);
        }
        if w.bad.is_some() {
            break;
        }
    }
    drop(schema);
    let live = LIVE.with(|l| l.get());
    if live != 0 {
        w.fail(format!("{live} node values are alive after the schema was dropped"));
    }
    let (bad, log) = (w.bad, w.log);
    c.nontrivial = log.len() > 2;
    for l in &log {
        for b in l.bytes() {
            c.mixh(b as u64);
        }
    }
    match bad {
        Some(m) => Err(Violation::new(m, log.join("\n"))),
        None => Ok(()),
    }
}
