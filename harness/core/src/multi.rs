//! C26: schemas are independent of each other. Several live in one thread, their transactions nested
//! in each other and their triggers acting on one another; each is compared with a model of its own.

use std::cell::{Cell, OnceCell, RefCell};
use std::collections::BTreeMap;
use std::panic::{catch_unwind, resume_unwind, AssertUnwindSafe};
use std::rc::Rc;

use plotline::deref::{TryDeref, With, WithMut};
use plotline::graph::{Graph, Source};
use plotline::id::Identify;
use plotline::prelude::{AfterDelete, AfterSave, BeforeDelete, BeforeSave, Ctx, Transaction};
use plotline::schema::ops::{delete::Delete, save::Save};
use plotline::schema::resource::Res;
use plotline::schema::transaction::{Context, Target};
use plotline::schema::trigger::Trigger;
use plotline::schema::{Error, Schema};
use vcommon::{Case, Rng, Violation};

#[derive(Clone, Debug, PartialEq)]
pub struct N {
    id: u8,
    v: u64,
}
impl Identify for N {
    type Id = u8;
    fn id(&self) -> &u8 {
        &self.id
    }
}

type S = Schema<N>;
type Overlay = BTreeMap<u8, Option<u64>>;

/// A resource every schema has one of.
struct Tally(u64);
/// A resource only some schemas have.
struct Extra(u64);
/// An event of the program's own.
struct Ping;

/// The model of one schema.
#[derive(Default)]
struct M {
    graph: BTreeMap<u8, u64>,
    /// Overlays of the transactions that are open, outermost first.
    open: Vec<Overlay>,
    /// Expected and actual trigger runs.
    want: Vec<(&'static str, Option<u64>)>,
    tally: u64,
    extra: Option<u64>,
}

impl M {
    fn get(&self, id: u8, depth: usize) -> Option<u64> {
        for o in self.open[..depth].iter().rev() {
            if let Some(x) = o.get(&id) {
                return *x;
            }
        }
        self.graph.get(&id).copied()
    }
    fn close(&mut self, ok: bool) {
        let o = self.open.pop().unwrap();
        if !ok {
            return;
        }
        match self.open.last_mut() {
            Some(p) => p.extend(o),
            None => {
                for (k, v) in o {
                    match v {
                        Some(v) => self.graph.insert(k, v),
                        None => self.graph.remove(&k),
                    };
                }
            }
        }
    }
}

type Log = Rc<RefCell<Vec<(&'static str, Option<u64>)>>>;

struct World {
    r: RefCell<Rng>,
    schemas: Vec<S>,
    logs: Vec<Log>,
    /// For each schema the one its save triggers write to, if any.
    follows: Vec<Option<usize>>,
    veto: Vec<Rc<Cell<u8>>>,
    models: RefCell<Vec<M>>,
    next: Cell<u64>,
    budget: Cell<usize>,
    log: RefCell<Vec<String>>,
    counts: RefCell<BTreeMap<&'static str, u64>>,
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum Fate {
    Commit,
    Fail,
    Panic,
}

/// An open context of one schema, at some depth.
struct Open<'a> {
    schema: usize,
    depth: usize,
    get: &'a dyn Fn(u8) -> (Option<N>, bool, Option<N>),
}

impl World {
    fn count(&self, k: &'static str) {
        *self.counts.borrow_mut().entry(k).or_insert(0) += 1;
    }
    fn say(&self, s: String) {
        self.log.borrow_mut().push(s);
    }
    fn below(&self, n: usize) -> usize {
        self.r.borrow_mut().below(n)
    }
    fn chance(&self, p: u32) -> bool {
        self.r.borrow_mut().chance(p)
    }
    fn fresh(&self) -> u64 {
        self.next.set(self.next.get() + 1);
        self.next.get()
    }

    /// Every schema against its model: through all its open contexts, or directly if it has none.
    fn compare(&self, open: &[&Open]) -> Result<(), String> {
        let models = self.models.borrow();
        for (k, s) in self.schemas.iter().enumerate() {
            let m = &models[k];
            let mut contexts = 0;
            for o in open.iter().filter(|o| o.schema == k) {
                contexts += 1;
                for id in 0..6u8 {
                    let want = m.get(id, o.depth).map(|v| N { id, v });
                    let (got, has, node) = (o.get)(id);
                    if got != want || node != want || has != want.is_some() {
                        return Err(format!("in schema {k} at depth {}, id {id} gives {got:?}, {has}, {node:?} instead of {want:?}", o.depth));
                    }
                }
            }
            if contexts == 0 {
                let got: Vec<N> = s.read().into_iter().cloned().collect();
                let want: Vec<N> = m.graph.iter().map(|(k, v)| N { id: *k, v: *v }).collect();
                if got != want {
                    return Err(format!("schema {k} holds {got:?} instead of {want:?}"));
                }
            }
            let tally = Res::<Tally>::from(s.resources()).with(|t| t.0);
            if tally != Some(m.tally) {
                return Err(format!("schema {k}'s tally is {tally:?} instead of {}", m.tally));
            }
            let extra = Res::<Extra>::from(s.resources()).with(|t| t.0);
            if extra != m.extra {
                return Err(format!("schema {k}'s second resource is {extra:?} instead of {:?}", m.extra));
            }
            let got = self.logs[k].borrow();
            if *got != m.want {
                let n = got.iter().zip(&m.want).take_while(|(a, b)| a == b).count();
                return Err(format!("schema {k}'s triggers ran {:?}, expected {:?} (from run {n})", &got[n..], &m.want[n..]));
            }
        }
        Ok(())
    }

    /// Runs steps inside a context of a schema.
    fn body(&self, k: usize, ctx: &Context<'_, N>, open: &[&Open]) -> Result<(), String> {
        let depth = self.models.borrow()[k].open.len();
        let get = |id: u8| (ctx.get(&id), ctx.contains(&id), ctx.node(id).try_deref().cloned());
        let me = Open { schema: k, depth, get: &get };
        let mut all: Vec<&Open> = open.to_vec();
        all.push(&me);
        self.compare(&all)?;
        for _ in 0..self.below(6) {
            if self.budget.get() == 0 {
                break;
            }
            self.budget.set(self.budget.get() - 1);
            self.step(k, ctx, &all)?;
            self.compare(&all)?;
        }
        Ok(())
    }

    fn step(&self, k: usize, ctx: &Context<'_, N>, open: &[&Open]) -> Result<(), String> {
        let id = self.below(6) as u8;
        let busy = |j: usize| open.iter().any(|o| o.schema == j);
        match self.below(10) {
            0 | 1 => {
                let v = self.fresh();
                self.say(format!("schema {k}: save {id} = {v}"));
                ctx.save(N { id, v });
                self.models.borrow_mut()[k].open.last_mut().unwrap().insert(id, Some(v));
            }
            2 => {
                self.say(format!("schema {k}: delete {id}"));
                ctx.delete(id);
                self.models.borrow_mut()[k].open.last_mut().unwrap().insert(id, None);
            }
            3 => {
                let v = self.fresh();
                self.say(format!("schema {k}: write its tally {v} through its context"));
                Res::<Tally>::from(ctx).with_mut(|t| t.0 = v);
                self.models.borrow_mut()[k].tally = v;
            }
            4 => {
                self.say(format!("schema {k}: ping"));
                self.count("events");
                let r = ctx.triggers().select(Ping).execute(ctx);
                if r.is_err() {
                    return Err(format!("ping in schema {k} fails"));
                }
                self.models.borrow_mut()[k].want.push(("ping", None));
            }
            5 => self.sub(k, ctx, open)?,
            6 | 7 => {
                // A transaction of another schema inside this one.
                let free: Vec<usize> = (0..self.schemas.len()).filter(|j| !busy(*j)).collect();
                if !free.is_empty() {
                    let j = free[self.below(free.len())];
                    self.count("nested_across_schemas");
                    self.top(j, open)?;
                }
            }
            n => {
                let bare: Vec<usize> = open.iter().map(|o| o.schema).collect();
                self.operation(k, |op| op(ctx.transaction()), &bare, n == 8)?;
            }
        }
        Ok(())
    }

    fn sub(&self, k: usize, ctx: &Context<'_, N>, open: &[&Open]) -> Result<(), String> {
        let fate = self.fate();
        self.say(format!("schema {k}: subtransaction, to {fate:?}"));
        self.models.borrow_mut()[k].open.push(Overlay::new());
        let mut inner = Ok(());
        let r = catch_unwind(AssertUnwindSafe(|| {
            ctx.transaction().with(|sub| {
                inner = self.body(k, &sub, open);
                self.end(k, fate, inner.is_ok())
            })
        }));
        inner?;
        self.judge(k, fate, r)
    }

    fn top(&self, k: usize, open: &[&Open]) -> Result<(), String> {
        let fate = self.fate();
        self.say(format!("schema {k}: transaction, to {fate:?}"));
        self.count("transactions");
        self.models.borrow_mut()[k].open.push(Overlay::new());
        let mut inner = Ok(());
        let r = catch_unwind(AssertUnwindSafe(|| {
            self.schemas[k].transaction().with(|ctx| {
                inner = self.body(k, &ctx, open);
                self.end(k, fate, inner.is_ok())
            })
        }));
        inner?;
        self.judge(k, fate, r)?;
        self.compare(open)
    }

    fn fate(&self) -> Fate {
        match self.below(8) {
            0 => Fate::Fail,
            1 => Fate::Panic,
            _ => Fate::Commit,
        }
    }
    fn end(&self, k: usize, fate: Fate, ok: bool) -> plotline::schema::Result<usize> {
        match fate {
            Fate::Panic if ok => resume_unwind(Box::new("as asked")),
            Fate::Commit if ok => Ok(k),
            _ => Err(Error::custom(format!("schema {k} fails"))),
        }
    }
    fn judge(&self, k: usize, fate: Fate, r: Result<plotline::schema::Result<usize>, Box<dyn std::any::Any + Send>>) -> Result<(), String> {
        self.models.borrow_mut()[k].close(fate == Fate::Commit);
        self.count(match fate {
            Fate::Commit => "commits",
            Fate::Fail => "failures",
            Fate::Panic => "panics",
        });
        match (fate, r) {
            (Fate::Commit, Ok(Ok(x))) if x == k => Ok(()),
            (Fate::Fail, Ok(Err(e))) if e.to_string() == format!("schema {k} fails") => Ok(()),
            (Fate::Panic, Err(_)) => Ok(()),
            (_, r) => Err(format!("a transaction of schema {k} to {fate:?} gives {:?}", r.map(|r| r.map_err(|e| e.to_string())).map_err(|_| "a panic"))),
        }
    }

    /// A save or delete operation, whose triggers may act on another schema.
    fn operation(&self, k: usize, run: impl FnOnce(&dyn Fn(plotline::schema::transaction::Foreground<'_, N>) -> plotline::schema::Result<()>) -> plotline::schema::Result<()>, busy: &[usize], save: bool) -> Result<(), String> {
        let id = self.below(6) as u8;
        let v = self.fresh();
        let depth = self.models.borrow()[k].open.len();
        let present = self.models.borrow()[k].get(id, depth);
        self.say(format!("schema {k}: {} operation on {id} = {v}", if save { "save" } else { "delete" }));
        let r = if save { run(&|tx| Save::new(N { id, v }).execute(tx)) } else { run(&|tx| Delete::new(id).execute(tx)) };
        self.count(if save { "save_operations" } else { "delete_operations" });
        self.expect_operation(k, id, v, present, busy, save, r)
    }

    fn expect_operation(&self, k: usize, id: u8, v: u64, present: Option<u64>, busy: &[usize], save: bool, r: plotline::schema::Result<()>) -> Result<(), String> {
        let mut models = self.models.borrow_mut();
        if !save && present.is_none() {
            return match r {
                Err(Error::Noop) => Ok(()),
                r => Err(format!("deleting absent {id} in schema {k} gives {r:?}")),
            };
        }
        let value = if save { v } else { present.unwrap() };
        let (before, after) = if save { ("before-save", "after-save") } else { ("before-delete", "after-delete") };
        models[k].want.push((before, Some(value)));
        let veto = self.veto[k].get() == id;
        if veto {
            return match r {
                Err(e) if e.to_string() == format!("schema {k} vetoes") => Ok(()),
                r => Err(format!("vetoed operation in schema {k} gives {r:?}")),
            };
        }
        let change = save.then_some(v);
        match models[k].open.last_mut() {
            Some(o) => {
                o.insert(id, change);
            }
            None => {
                match change {
                    Some(v) => models[k].graph.insert(id, v),
                    None => models[k].graph.remove(&id),
                };
            }
        }
        models[k].want.push((after, Some(value)));
        if save {
            if let Some(j) = self.follows[k] {
                // The trigger copies the node to the schema it feeds, unless that one is locked.
                if !busy.contains(&j) && j != k {
                    models[j].graph.insert(id, value + (1 << 40));
                    self.count("trigger_writes_elsewhere");
                }
            }
        }
        r.map_err(|e| format!("operation on {id} in schema {k} fails: {e}"))
    }
}

pub fn c26(c: &mut Case) -> Result<(), Violation> {
    let mut r = c.rng();
    let n = 2 + r.below(3);
    let logs: Vec<Log> = (0..n).map(|_| Default::default()).collect();
    let follows: Vec<Option<usize>> = (0..n).map(|k| r.chance(40).then(|| (k + 1 + r.below(n - 1)) % n)).collect();
    let veto: Vec<Rc<Cell<u8>>> = (0..n).map(|_| Rc::new(Cell::new(if r.chance(30) { r.below(6) as u8 } else { 99 }))).collect();
    // Which schemas are locked by an open transaction, for the triggers that write elsewhere.
    let world = Rc::new(OnceCell::<World>::new());
    let mut schemas = vec![];
    let mut models: Vec<M> = vec![];
    for k in 0..n {
        let nodes: Vec<N> = (0..6u8).filter(|_| r.chance(40)).map(|id| N { id, v: 1_000_000 * (k as u64 + 1) + id as u64 }).collect();
        let mut m = M { graph: nodes.iter().map(|n| (n.id, n.v)).collect(), tally: k as u64 + 500, ..M::default() };
        let mut s = S::from(Graph::from_iter(nodes)).with_resource(Tally(m.tally));
        if r.chance(50) {
            m.extra = Some(k as u64 + 900);
            s = s.with_resource(Extra(k as u64 + 900));
        }
        let note = |what: &'static str| {
            let log = logs[k].clone();
            let veto = veto[k].clone();
            move |_: Ctx<N>, t: Target<N>| -> plotline::schema::Result<()> {
                let (id, v) = t.with(|n| (n.id, n.v)).unzip();
                log.borrow_mut().push((what, v));
                if id == Some(veto.get()) && what.starts_with("before") {
                    return Err(Error::custom(format!("schema {k} vetoes")));
                }
                Ok(())
            }
        };
        s = s.with_trigger(BeforeSave, note("before-save")).with_trigger(AfterSave, note("after-save")).with_trigger(BeforeDelete, note("before-delete")).with_trigger(AfterDelete, note("after-delete")).with_trigger(Ping, note("ping"));
        if let Some(j) = follows[k] {
            let world = Rc::downgrade(&world);
            s = s.with_trigger(AfterSave, move |_: Ctx<N>, t: Target<N>| {
                let world = world.upgrade().unwrap();
                let w = world.get().unwrap();
                let locked = !w.models.borrow()[j].open.is_empty();
                if let (Some(n), false) = (t.with(|n| n.clone()), locked) {
                    w.schemas[j].transaction().with(|ctx| {
                        ctx.save(N { id: n.id, v: n.v + (1 << 40) });
                        Ok(())
                    })?;
                }
                Ok(())
            });
        }
        schemas.push(s);
        models.push(m);
    }
    let w = World {
        r: RefCell::new(r.clone()),
        schemas,
        logs,
        follows,
        veto,
        models: RefCell::new(models),
        next: Cell::new(1),
        budget: Cell::new(60),
        log: Default::default(),
        counts: Default::default(),
    };
    let _ = world.set(w);
    let w = world.get().unwrap();
    let out = run(w);
    for (k, v) in w.counts.borrow().iter() {
        c.count(k, *v);
    }
    c.count("schemas", n as u64);
    for l in w.log.borrow().iter() {
        let mut h = 0u64;
        for b in l.bytes() {
            h = h.wrapping_mul(31).wrapping_add(b as u64);
        }
        c.mixh(h);
    }
    c.nontrivial = w.log.borrow().len() > 2;
    let witness = w.log.borrow().join("\n");
    out.map_err(|m| Violation::new(m, witness))
}

fn run(w: &World) -> Result<(), String> {
    w.compare(&[])?;
    for _ in 0..2 + w.below(6) {
        let k = w.below(w.schemas.len());
        match w.below(6) {
            0 => {
                let (id, v) = (w.below(6) as u8, w.fresh());
                w.say(format!("schema {k}: write access inserts {id} = {v}"));
                let mut g = w.schemas[k].write();
                // Another schema is used while this one is locked.
                let j = (k + 1) % w.schemas.len();
                let got: Vec<u8> = w.schemas[j].write().into_iter().map(|n| n.id).collect();
                let want: Vec<u8> = w.models.borrow()[j].graph.keys().copied().collect();
                if got != want {
                    return Err(format!("schema {j} holds ids {got:?} instead of {want:?} while schema {k} is locked"));
                }
                g.insert(N { id, v });
                drop(g);
                w.models.borrow_mut()[k].graph.insert(id, v);
                w.count("write_accesses");
            }
            1 => {
                let v = w.fresh();
                w.say(format!("schema {k}: write resources {v}"));
                Res::<Tally>::from(w.schemas[k].resources()).with_mut(|t| t.0 = v);
                let wrote = Res::<Extra>::from(w.schemas[k].resources()).with_mut(|t| t.0 = v).is_some();
                let mut m = w.models.borrow_mut();
                m[k].tally = v;
                if wrote != m[k].extra.is_some() {
                    return Err(format!("schema {k}'s second resource exists: {wrote}"));
                }
                if wrote {
                    m[k].extra = Some(v);
                }
            }
            2 => {
                let (id, v, save) = (w.below(6) as u8, w.fresh(), w.chance(60));
                let present = w.models.borrow()[k].get(id, 0);
                w.say(format!("schema {k}: {} operation on {id} = {v}", if save { "save" } else { "delete" }));
                w.count(if save { "save_operations" } else { "delete_operations" });
                // The schema is locked while its own triggers run; so is nothing else.
                let r = if save { Save::new(N { id, v }).execute(w.schemas[k].transaction()) } else { Delete::new(id).execute(w.schemas[k].transaction()) };
                w.expect_operation(k, id, v, present, &[k], save, r)?;
            }
            _ => w.top(k, &[])?,
        }
        w.compare(&[])?;
    }
    Ok(())
}

/// How a link of a chain hands its event on.
#[derive(Clone, Copy, Debug, PartialEq)]
enum Via {
    SaveOperation,
    Transaction,
    DeleteOperation,
    Event,
}

#[derive(Clone, Copy, Debug)]
struct Link {
    via: Via,
    after: bool,
    swallow: bool,
    /// Fails by itself once the rest of the chain has run.
    fails: bool,
}

struct Chain {
    links: Vec<Link>,
    /// Runs of each schema's trigger.
    ran: RefCell<Vec<u64>>,
    graphs: RefCell<Vec<BTreeMap<u8, u64>>>,
}

type SR = plotline::schema::Result<()>;

/// What the trigger of schema k does to the next one.
fn pass(ch: &Chain, k: usize, next: Option<&S>, v: u64) -> SR {
    ch.ran.borrow_mut()[k] += 1;
    let l = ch.links[k];
    if let Some(next) = next {
        let r = match l.via {
            Via::SaveOperation => Save::new(N { id: 1, v: v + 1 }).execute(next.transaction()),
            Via::Transaction => next.transaction().with(|ctx| {
                ctx.save(N { id: 2, v: v + 1 });
                Save::new(N { id: 1, v: v + 1 }).execute(ctx.transaction())
            }),
            Via::DeleteOperation => Delete::new(0).execute(next.transaction()),
            Via::Event => next.transaction().with(|ctx| {
                let ctx = ctx.with_target(N { id: 1, v: v + 1 });
                let r = ctx.triggers().select(Ping).execute(&ctx);
                r
            }),
        };
        if !l.swallow {
            r?;
        }
    }
    if l.fails {
        return Err(Error::custom(format!("link {k} fails")));
    }
    Ok(())
}

/// The same on the model. `via`: how schema k was reached.
fn model(ch: &Chain, k: usize, via: Via, v: u64, graphs: &mut Vec<BTreeMap<u8, u64>>, ran: &mut [u64]) -> Result<(), String> {
    let old = graphs[k].clone();
    let was = old.get(&0).copied();
    if via == Via::DeleteOperation && was.is_none() {
        return Err("nothing to apply".into());
    }
    let l = ch.links[k];
    ran[k] += 1;
    let value = if via == Via::DeleteOperation { was.unwrap() } else { v };
    let mut r = Ok(());
    if k + 1 < ch.links.len() {
        r = model(ch, k + 1, l.via, value + 1, graphs, ran);
        if l.swallow {
            r = Ok(());
        }
    }
    if r.is_ok() && l.fails {
        r = Err(format!("link {k} fails"));
    }
    if r.is_ok() {
        match via {
            Via::SaveOperation => {
                graphs[k].insert(1, v);
            }
            Via::Transaction => {
                graphs[k].insert(1, v);
                graphs[k].insert(2, v);
            }
            Via::DeleteOperation => {
                graphs[k].remove(&0);
            }
            Via::Event => {}
        }
    }
    r
}

/// Many schemas in a row, each one's trigger acting on the next; then all of them open at once.
pub fn chain(c: &mut Case) -> Result<(), Violation> {
    let mut r = c.rng();
    let n = *r.pick(&[3, 4, 5, 6, 8, 9, 10, 12, 16, 17, 20, 24, 32, 33, 40, 64, 70]);
    let troubled = r.chance(50);
    let links: Vec<Link> = (0..n)
        .map(|_| Link {
            via: *r.pick(&[Via::SaveOperation, Via::SaveOperation, Via::Transaction, Via::DeleteOperation, Via::Event]),
            after: r.chance(50),
            swallow: troubled && r.chance(20),
            fails: troubled && r.chance(5),
        })
        .collect();
    let witness = format!("{links:?}");
    let graphs: Vec<BTreeMap<u8, u64>> = (0..n).map(|k| if r.chance(92) { BTreeMap::from([(0, k as u64 * 1000)]) } else { BTreeMap::new() }).collect();
    let ch = Rc::new(Chain { ran: RefCell::new(vec![0; n]), graphs: RefCell::new(graphs), links });
    let mut schemas: Vec<Rc<S>> = vec![];
    for k in (0..n).rev() {
        let g: Vec<N> = ch.graphs.borrow()[k].iter().map(|(id, v)| N { id: *id, v: *v }).collect();
        let next = schemas.last().cloned();
        let t = || {
            let (ch, next) = (ch.clone(), next.clone());
            move |_: Ctx<N>, t: Target<N>| pass(&ch, k, next.as_deref(), t.with(|n| n.v).unwrap_or(0))
        };
        let s = S::from(Graph::from_iter(g)).with_trigger(Ping, t());
        let s = if ch.links[k].after { s.with_trigger(AfterSave, t()).with_trigger(AfterDelete, t()) } else { s.with_trigger(BeforeSave, t()).with_trigger(BeforeDelete, t()) };
        schemas.push(Rc::new(s));
    }
    schemas.reverse();
    let compare = |what: &str| -> Result<(), Violation> {
        for (k, s) in schemas.iter().enumerate() {
            let got: BTreeMap<u8, u64> = s.read().into_iter().map(|n| (n.id, n.v)).collect();
            if got != ch.graphs.borrow()[k] {
                return Err(Violation::new(format!("{what}: schema {k} of {n} holds {got:?} instead of {:?}", ch.graphs.borrow()[k]), witness.clone()));
            }
        }
        Ok(())
    };
    compare("at first")?;
    let mut ran = vec![0u64; n];
    for round in 0..1 + r.below(3) {
        let start = if r.chance(70) { 0 } else { r.below(n) };
        let v = 1_000_000 * (round as u64 + 1);
        let got = Save::new(N { id: 1, v }).execute(schemas[start].transaction());
        let mut graphs = ch.graphs.borrow().clone();
        let want = model(&ch, start, Via::SaveOperation, v, &mut graphs, &mut ran);
        *ch.graphs.borrow_mut() = graphs;
        c.count("chains", 1);
        c.count("chained_schemas", (n - start) as u64);
        if got.as_ref().map(|x| *x).map_err(|e| e.to_string()) != want {
            return Err(Violation::new(format!("a chain of {} schemas gives {got:?} instead of {want:?}", n - start), witness));
        }
        if *ch.ran.borrow() != ran {
            return Err(Violation::new(format!("triggers along the chain ran {:?} times, expected {ran:?}", ch.ran.borrow()), witness));
        }
        compare("after a chain")?;
    }
    // All of them open at once, by transactions nested in each other.
    fn nest(schemas: &[Rc<S>], k: usize, ch: &Chain, fate: &[Fate]) -> plotline::schema::Result<()> {
        if k == schemas.len() {
            return Ok(());
        }
        let r = catch_unwind(AssertUnwindSafe(|| {
            schemas[k].transaction().with(|ctx| {
                ctx.save(N { id: 5, v: k as u64 });
                if fate[k] == Fate::Panic {
                    resume_unwind(Box::new(()));
                }
                let inner = nest(schemas, k + 1, ch, fate);
                assert_eq!(ctx.get(&5).map(|n| n.v), Some(k as u64));
                if fate[k] == Fate::Fail {
                    return Err(Error::Noop);
                }
                inner.or(Ok(()))
            })
        }));
        if matches!(r, Ok(Ok(()))) {
            ch.graphs.borrow_mut()[k].insert(5, k as u64);
        }
        Ok(())
    }
    let calm = r.chance(40);
    let fate: Vec<Fate> = (0..n).map(|_| if calm { Fate::Commit } else { *r.pick(&[Fate::Commit, Fate::Commit, Fate::Commit, Fate::Commit, Fate::Commit, Fate::Commit, Fate::Commit, Fate::Commit, Fate::Fail, Fate::Panic]) }).collect();
    let reached = fate.iter().position(|f| *f == Fate::Panic).unwrap_or(n);
    let _ = nest(&schemas, 0, &ch, &fate);
    c.count("open_at_once", reached as u64);
    for (k, g) in ch.graphs.borrow().iter().enumerate() {
        let want = k < reached && fate[k] == Fate::Commit;
        if g.contains_key(&5) != want {
            return Err(Violation::new(format!("of {n} transactions nested across schemas, number {k} ({:?}) succeeds: {}", fate[k], !want), witness));
        }
    }
    compare("after transactions nested across schemas")?;
    c.nontrivial = true;
    c.mixh(n as u64);
    for l in &ch.links {
        c.mixh(l.via as u64 * 8 + l.after as u64 * 4 + l.swallow as u64 * 2 + l.fails as u64);
    }
    c.mixh(fate.iter().fold(0u64, |h, f| h.wrapping_mul(3).wrapping_add(*f as u64)));
    Ok(())
}

/// A schema of a succession and what it should hold.
struct Life {
    schema: S,
    born: u64,
    tally: Rc<Cell<u64>>,
    extra: Option<Rc<Cell<u64>>>,
    graph: BTreeMap<u8, u64>,
    /// What its triggers should see, and how often they ran.
    saves: usize,
    ran: Rc<Cell<u64>>,
    want: u64,
}

/// A handle and the value it should give, if any.
enum Handle {
    Tally(Res<Tally>, Rc<Cell<u64>>),
    Extra(Res<Extra>, Option<Rc<Cell<u64>>>),
}

impl Handle {
    fn value(&self) -> (Option<u64>, Option<u64>, &'static str) {
        match self {
            Self::Tally(h, v) => (h.with(|t| t.0), Some(v.get()), "Tally"),
            Self::Extra(h, v) => (h.with(|t| t.0), v.as_ref().map(|v| v.get()), "Extra"),
        }
    }
    fn set(&self, x: u64) -> bool {
        let (done, model) = match self {
            Self::Tally(h, v) => (h.with_mut(|t| t.0 = x).is_some(), Some(v)),
            Self::Extra(h, v) => (h.with_mut(|t| t.0 = x).is_some(), v.as_ref()),
        };
        model.iter().for_each(|v| v.set(x));
        done == model.is_some()
    }
}

fn give_birth(r: &mut Rng, born: u64, seen: &Rc<RefCell<Vec<(u64, u64)>>>) -> Life {
    let mut schema = S::default_or_from(r, born);
    let tally = Rc::new(Cell::new(born * 100));
    let extra = r.chance(50).then(|| Rc::new(Cell::new(born * 100 + 50)));
    let saves = r.below(3);
    let ran = Rc::new(Cell::new(0u64));
    let graph: BTreeMap<u8, u64> = schema.read().into_iter().map(|n| (n.id, n.v)).collect();
    let first = r.chance(50);
    for step in 0..3 {
        // Resources before, between or after the triggers.
        if step == 0 && first || step == 2 && !first {
            schema = schema.with_resource(Tally(tally.get()));
            if let Some(x) = &extra {
                schema = schema.with_resource(Extra(x.get()));
            }
        }
        if step == 1 {
            for _ in 0..saves {
                let (ran, seen) = (ran.clone(), seen.clone());
                schema = schema.with_trigger(AfterSave, move |_: Ctx<N>, t: Res<Tally>| {
                    ran.set(ran.get() + 1);
                    seen.borrow_mut().push((born, t.with(|t| t.0).unwrap_or(u64::MAX)));
                    plotline::schema::Result::Ok(())
                });
            }
        }
    }
    Life { schema, born, tally, extra, graph, saves, ran, want: 0 }
}

trait Born {
    fn default_or_from(r: &mut Rng, born: u64) -> Self;
}
impl Born for S {
    fn default_or_from(r: &mut Rng, born: u64) -> S {
        let n = r.below(4) as u64;
        S::from(Graph::from_iter((0..n).map(|k| N { id: k as u8, v: born * 1000 + k })))
    }
}

/// Schemas made one after another, in the memory of those dropped before, while handles on the
/// resources of the dropped ones are still in use.
pub fn succession(c: &mut Case) -> Result<(), Violation> {
    let mut r = c.rng();
    let slots = 1 + r.below(3);
    let mut lives: Vec<Option<Life>> = (0..slots).map(|_| None).collect();
    let mut handles: Vec<(u64, Handle)> = vec![];
    let seen: Rc<RefCell<Vec<(u64, u64)>>> = Default::default();
    let mut log: Vec<String> = vec![];
    let mut born = 0u64;
    let mut fresh = 1_000_000u64;
    let most = if r.chance(10) { 150 } else { 40 };
    let steps = 10 + r.below(most);
    macro_rules! fail {
        ($($x:tt)*) => {
            return Err(Violation::new(format!($($x)*), log.join("\n")))
        };
    }
    for _ in 0..steps {
        let k = r.below(slots);
        if lives[k].is_none() || r.chance(15) {
            let old = if r.chance(70) {
                lives[k] = None;
                None
            } else {
                lives[k].take()
            };
            if r.chance(10) {
                log.push(format!("drop the schema in place {k}"));
                continue;
            }
            born += 1;
            let life = give_birth(&mut r, born, &seen);
            log.push(format!("schema {born} in place {k}, {}with Extra, {} triggers", if life.extra.is_some() { "" } else { "not " }, life.saves));
            lives[k] = Some(life);
            drop(old);
            c.count("schemas", 1);
            c.mixh(1);
        }
        let life = lives[k].as_mut().unwrap();
        let op = r.below(7);
        c.mixh(op as u64 * 4 + k as u64);
        match op {
            0 | 1 => {
                let through = r.below(2);
                let of_tally = r.chance(60);
                log.push(format!("handle {} on the {} of schema {}", handles.len(), if of_tally { "Tally" } else { "Extra" }, life.born));
                let h = match (through, of_tally) {
                    (0, true) => Handle::Tally(Res::from(life.schema.resources()), life.tally.clone()),
                    (0, false) => Handle::Extra(Res::from(life.schema.resources()), life.extra.clone()),
                    (_, true) => Handle::Tally(life.schema.transaction().with(|ctx| Ok(Res::from(&ctx))).unwrap(), life.tally.clone()),
                    (_, false) => Handle::Extra(life.schema.transaction().with(|ctx| Ok(Res::from(&ctx))).unwrap(), life.extra.clone()),
                };
                let (got, want, what) = h.value();
                if got != want {
                    fail!("a new handle on the {what} of schema {} gives {got:?} instead of {want:?}", life.born);
                }
                c.count("handles", 1);
                handles.push((life.born, h));
            }
            2 if !handles.is_empty() => {
                let j = r.below(handles.len());
                fresh += 1;
                log.push(format!("{fresh} through the handle on schema {}", handles[j].0));
                if !handles[j].1.set(fresh) {
                    fail!("a handle on a resource of schema {} is present where it should not be, or the reverse", handles[j].0);
                }
                if !lives.iter().flatten().any(|l| l.born == handles[j].0) {
                    c.count("writes_after_the_schema", 1);
                }
            }
            3 if !handles.is_empty() => {
                let j = r.below(handles.len());
                log.push(format!("drop a handle on schema {}", handles[j].0));
                handles.swap_remove(j);
            }
            4 | 5 => {
                fresh += 1;
                let id = r.below(4) as u8;
                log.push(format!("save {id} in schema {}", life.born));
                seen.borrow_mut().clear();
                if Save::new(N { id, v: fresh }).execute(life.schema.transaction()).is_err() {
                    fail!("saving in schema {} fails", life.born);
                }
                life.graph.insert(id, fresh);
                life.want += life.saves as u64;
                let want = vec![(life.born, life.tally.get()); life.saves];
                if *seen.borrow() != want {
                    fail!("a save in schema {} makes triggers see {:?} instead of {want:?}", life.born, seen.borrow());
                }
                c.count("saves", 1);
            }
            _ => {
                let id = r.below(4) as u8;
                log.push(format!("delete {id} in schema {}", life.born));
                let got = Delete::new(id).execute(life.schema.transaction()).is_ok();
                let want = life.graph.remove(&id).is_some();
                if got != want {
                    fail!("deleting {id} in schema {} gives {got} instead of {want}", life.born);
                }
            }
        }
        // Everything that can be seen, against the models.
        for (b, h) in &handles {
            let (got, want, what) = h.value();
            if got != want {
                fail!("a handle on the {what} of schema {b} gives {got:?} instead of {want:?}");
            }
        }
        for l in lives.iter().flatten() {
            let got: BTreeMap<u8, u64> = l.schema.read().into_iter().map(|n| (n.id, n.v)).collect();
            if got != l.graph {
                fail!("schema {} holds {got:?} instead of {:?}", l.born, l.graph);
            }
            if l.ran.get() != l.want {
                fail!("triggers of schema {} ran {} times instead of {}", l.born, l.ran.get(), l.want);
            }
            let t = Res::<Tally>::from(l.schema.resources()).with(|t| t.0);
            let x = Res::<Extra>::from(l.schema.resources()).with(|t| t.0);
            if (t, x) != (Some(l.tally.get()), l.extra.as_ref().map(|x| x.get())) {
                fail!("schema {} has the resources {t:?} and {x:?} instead of {} and {:?}", l.born, l.tally.get(), l.extra);
            }
        }
        c.count("old_handles", handles.iter().filter(|h| !lives.iter().flatten().any(|l| l.born == h.0)).count() as u64);
    }
    c.nontrivial = born > 1;
    Ok(())
}
