//! C27: building a schema. Each step (a resource, a trigger, a plugin with steps of its own) adds what
//! it says and leaves everything else as it was, whatever is done with the schema in between.

use std::cell::{Cell, RefCell};
use std::collections::BTreeMap;
use std::rc::Rc;

use plotline::deref::{TryDeref, With, WithMut};
use plotline::graph::{Graph, Source};
use plotline::id::Identify;
use plotline::prelude::{AfterDelete, AfterSave, BeforeDelete, BeforeSave, Ctx, Plugin, Transaction};
use plotline::schema::ops::{delete::Delete, save::Save};
use plotline::schema::resource::{Res, ResourceSet};
use plotline::schema::transaction::Target;
use plotline::schema::trigger::{Trigger, TriggerSet};
use plotline::schema::{Error, Schema};
use vcommon::{Case, Rng, Violation};

#[derive(Clone, Debug, PartialEq)]
pub struct N {
    id: u8,
    v: u64,
}
impl Identify for N {
    type Id = u8;
    fn id(&self) -> &u8 {
        &self.id
    }
}
type S = Schema<N>;
type SR = plotline::schema::Result<()>;

struct RA(u64);
struct RB(u64, #[allow(dead_code)] [u64; 40]);
struct RC<T>(u64, #[allow(dead_code)] T);

struct E0;
struct E1;
#[allow(dead_code)]
enum E2 {
    X,
    Y,
}

const KINDS: usize = 5;
const EVENTS: usize = 8;

#[derive(Clone, Debug)]
enum Step {
    Resource(usize),
    Trigger { event: usize, shape: usize },
    Plugin { kind: usize, steps: Vec<Step> },
    /// A plugin that gives back another schema than it was given.
    Replace { steps: Vec<Step> },
    Handle(usize),
    Write(usize),
    Save(u8),
    Delete(u8),
    Fire(usize),
    Failed,
    Sets { events: Vec<usize>, kinds: Vec<usize> },
}

fn gen(r: &mut Rng, n: usize, depth: usize) -> Vec<Step> {
    (0..n)
        .map(|_| {
            let swap = depth < 4 && r.chance(15);
            match r.weighted(&[6, 8, if depth < 4 { 5 } else { 0 }, swap as u32, 2, 2, 2, 2, 2, 1, 1]) {
            0 => Step::Resource(r.below(KINDS)),
            1 => Step::Trigger { event: r.below(EVENTS), shape: r.below(6) },
            2 => Step::Plugin { kind: r.below(4), steps: { let n = r.below(5); gen(r, n, depth + 1) } },
            3 => Step::Replace { steps: { let n = r.below(5); gen(r, n, depth + 1) } },
            4 => Step::Handle(r.below(KINDS)),
            5 => Step::Write(r.below(KINDS)),
            6 => Step::Save(r.below(6) as u8),
            7 => Step::Delete(r.below(6) as u8),
            8 => Step::Fire(r.below(EVENTS)),
            9 => Step::Failed,
            _ => Step::Sets { events: { let n = r.below(6); (0..n).map(|_| r.below(EVENTS)).collect() }, kinds: { let n = r.below(5); (0..n).map(|_| r.below(KINDS)).collect() } },
            }
        })
        .collect()
}

enum Handle {
    A(Res<RA>),
    B(Res<RB>),
    C(Res<RC<u8>>),
    D(Res<RC<String>>),
    E(Res<u64>),
}

impl Handle {
    fn new(set: &ResourceSet, kind: usize) -> Self {
        match kind {
            0 => Self::A(set.into()),
            1 => Self::B(set.into()),
            2 => Self::C(set.into()),
            3 => Self::D(set.into()),
            _ => Self::E(set.into()),
        }
    }
    fn get(&self) -> Option<u64> {
        match self {
            Self::A(h) => h.with(|x| x.0),
            Self::B(h) => h.with(|x| x.0),
            Self::C(h) => h.with(|x| x.0),
            Self::D(h) => h.with(|x| x.0),
            Self::E(h) => h.with(|x| *x),
        }
    }
    fn set(&self, v: u64) -> Option<()> {
        match self {
            Self::A(h) => h.with_mut(|x| x.0 = v),
            Self::B(h) => h.with_mut(|x| x.0 = v),
            Self::C(h) => h.with_mut(|x| x.0 = v),
            Self::D(h) => h.with_mut(|x| x.0 = v),
            Self::E(h) => h.with_mut(|x| *x = v),
        }
    }
}

#[derive(Default)]
struct Model {
    graph: BTreeMap<u8, u64>,
    triggers: [Vec<u64>; EVENTS],
    /// Registration and value of each resource.
    resources: [Option<(u64, u64)>; KINDS],
}

struct Env {
    model: RefCell<Model>,
    ran: Rc<RefCell<Vec<u64>>>,
    next: Cell<u64>,
    installs: RefCell<BTreeMap<u64, u64>>,
    handles: RefCell<Vec<(usize, u64, Handle)>>,
    log: RefCell<Vec<String>>,
    bad: RefCell<Option<String>>,
    counts: RefCell<BTreeMap<&'static str, u64>>,
}

impl Env {
    fn fresh(&self) -> u64 {
        self.next.set(self.next.get() + 1);
        self.next.get()
    }
    fn count(&self, k: &'static str) {
        *self.counts.borrow_mut().entry(k).or_insert(0) += 1;
    }
    fn fail(&self, m: String) {
        self.bad.borrow_mut().get_or_insert(m);
    }
    fn expect<T: PartialEq + std::fmt::Debug>(&self, what: &str, got: T, want: T) {
        if got != want {
            self.fail(format!("{what}: {got:?} instead of {want:?}"));
        }
    }
}

/// A plugin; the same types are installed again and again.
struct Pl<const K: usize>(Rc<Env>, u64, Vec<Step>);
impl<const K: usize> Plugin<N> for Pl<K> {
    fn install(self, schema: S) -> S {
        *self.0.installs.borrow_mut().entry(self.1).or_insert(0) += 1;
        build(&self.0, schema, &self.2)
    }
}

/// A plugin without data.
struct Bare;
thread_local!(static BARE: RefCell<Option<Rc<Env>>> = const { RefCell::new(None) });
impl Plugin<N> for Bare {
    fn install(self, schema: S) -> S {
        let env = BARE.with_borrow(|e| e.clone()).expect("env");
        env.count("bare_installs");
        build(&env, schema, &[Step::Trigger { event: 0, shape: 0 }])
    }
}

/// A plugin that puts another schema in the place of the one it is given.
struct Swap(Rc<Env>, u64, Vec<Step>);
impl Plugin<N> for Swap {
    fn install(self, schema: S) -> S {
        let e = &self.0;
        *e.installs.borrow_mut().entry(self.1).or_insert(0) += 1;
        check(e, &schema, "before another schema takes its place");
        // With the nodes of the old one, in half of the cases.
        let keep = self.1 % 2 == 0;
        let nodes: Vec<N> = if keep { schema.read().into_iter().cloned().collect() } else { vec![] };
        let mut m = e.model.borrow_mut();
        let graph = if keep { std::mem::take(&mut m.graph) } else { BTreeMap::new() };
        *m = Model { graph, ..Default::default() };
        drop(m);
        drop(schema);
        build(e, S::from(Graph::from_iter(nodes)), &self.2)
    }
}

fn named(_: Ctx<'_, N>) -> SR {
    Ok(())
}

macro_rules! on_event {
    ($event:expr, $f:ident ( $($x:tt)* )) => {
        match $event {
            0 => $f!(BeforeSave, $($x)*),
            1 => $f!(AfterSave, $($x)*),
            2 => $f!(BeforeDelete, $($x)*),
            3 => $f!(AfterDelete, $($x)*),
            4 => $f!(E0, $($x)*),
            5 => $f!(E1, $($x)*),
            6 => $f!(E2::X, $($x)*),
            _ => $f!((), $($x)*),
        }
    };
}

macro_rules! register {
    ($e:expr, $on:expr, $shape:expr, $ran:expr, $label:expr) => {{
        let (ran, label) = ($ran, $label);
        match $shape {
            0 => $on.with_trigger($e, move |_: Ctx<N>| -> SR {
                ran.borrow_mut().push(label);
                Ok(())
            }),
            1 => $on.with_trigger($e, move |_: Ctx<N>, _: Res<RA>| -> SR {
                ran.borrow_mut().push(label);
                Ok(())
            }),
            2 => $on.with_trigger($e, move |_: Ctx<N>, _: Target<N>, _: Res<RB>, _: Res<RC<u8>>| -> SR {
                ran.borrow_mut().push(label);
                Ok(())
            }),
            3 => $on.with_trigger($e, move |_: Ctx<N>, _: Target<N>, _: Res<RA>, _: Res<RA>, _: Res<RB>, _: Target<N>, _: Res<u64>, _: Res<()>, _: Res<i8>| -> SR {
                ran.borrow_mut().push(label);
                Ok(())
            }),
            // A function, then the trigger that tells.
            4 => $on.with_trigger($e, named).with_trigger($e, move |_: Ctx<N>| -> SR {
                ran.borrow_mut().push(label);
                Ok(())
            }),
            _ => $on.with_trigger($e, move |c: Ctx<N>, _: Res<RA>| -> SR {
                ran.borrow_mut().push(label);
                c.transaction().with(|_| Ok(()))
            }),
        }
    }};
}

macro_rules! fire {
    ($e:expr, $set:expr, $ctx:expr) => {
        $set.select($e).execute($ctx)
    };
}

/// Everything the schema should hold, observed from outside.
fn check(e: &Env, s: &S, when: &str) {
    if e.bad.borrow().is_some() {
        return;
    }
    e.count("full_checks");
    let m = e.model.borrow();
    let got: BTreeMap<u8, u64> = s.read().into_iter().map(|n| (n.id, n.v)).collect();
    e.expect(&format!("{when}, graph"), &got, &m.graph);
    for k in 0..KINDS {
        e.expect(&format!("{when}, resource {k}"), Handle::new(s.resources(), k).get(), m.resources[k].map(|x| x.1));
    }
    for ev in 0..EVENTS {
        e.ran.borrow_mut().clear();
        let r = s.transaction().with(|ctx| on_event!(ev, fire(s.triggers(), &ctx)));
        if r.is_err() {
            e.fail(format!("{when}: event {ev} gives {r:?}"));
        }
        e.expect(&format!("{when}, triggers of event {ev}"), &*e.ran.borrow(), &m.triggers[ev]);
    }
    for (k, reg, h) in e.handles.borrow().iter() {
        if let Some((now, v)) = m.resources[*k] {
            if now == *reg {
                e.expect(&format!("{when}, a handle of resource {k} taken while building"), h.get(), Some(v));
            }
        }
    }
}

fn build(e: &Rc<Env>, mut s: S, steps: &[Step]) -> S {
    for step in steps {
        if e.bad.borrow().is_some() {
            return s;
        }
        e.log.borrow_mut().push(match step {
            Step::Plugin { kind, steps } => format!("plugin {kind} of {} steps", steps.len()),
            Step::Replace { steps } => format!("replacing plugin of {} steps", steps.len()),
            x => format!("{x:?}"),
        });
        match step {
            Step::Resource(k) => {
                let v = e.fresh();
                e.count("resources");
                s = match k {
                    0 => s.with_resource(RA(v)),
                    1 => s.with_resource(RB(v, [v; 40])),
                    2 => s.with_resource(RC(v, 0u8)),
                    3 => s.with_resource(RC(v, String::from("x"))),
                    _ => s.with_resource(v),
                };
                e.model.borrow_mut().resources[*k] = Some((v, v));
            }
            Step::Trigger { event, shape } => {
                let label = e.fresh();
                e.count("triggers");
                let ran = e.ran.clone();
                s = on_event!(*event, register(s, *shape, ran, label));
                e.model.borrow_mut().triggers[*event].push(label);
            }
            Step::Plugin { kind, steps } => {
                let id = e.fresh();
                e.installs.borrow_mut().insert(id, 0);
                e.count("plugins");
                s = match kind {
                    0 => s.install(Pl::<0>(e.clone(), id, steps.clone())),
                    1 => s.install(Pl::<1>(e.clone(), id, steps.clone())),
                    2 => s.install(Pl::<2>(e.clone(), id, steps.clone())),
                    _ => {
                        BARE.set(Some(e.clone()));
                        e.installs.borrow_mut().remove(&id);
                        let before = e.counts.borrow().get("bare_installs").copied().unwrap_or(0);
                        let s = s.install(Bare);
                        BARE.set(None);
                        e.expect("runs of a plugin without data", e.counts.borrow().get("bare_installs").copied().unwrap_or(0) - before, 1);
                        s
                    }
                };
                if let Some(n) = e.installs.borrow().get(&id) {
                    e.expect("runs of a plugin's installation", *n, 1);
                }
            }
            Step::Replace { steps } => {
                let id = e.fresh();
                e.installs.borrow_mut().insert(id, 0);
                e.count("replaced_schemas");
                s = s.install(Swap(e.clone(), id, steps.clone()));
                e.expect("runs of a plugin's installation", e.installs.borrow()[&id], 1);
            }
            Step::Handle(k) => {
                let h = Handle::new(s.resources(), *k);
                let m = e.model.borrow();
                e.expect(&format!("a new handle of resource {k}"), h.get(), m.resources[*k].map(|x| x.1));
                if let Some((reg, _)) = m.resources[*k] {
                    e.handles.borrow_mut().push((*k, reg, h));
                    e.count("handles");
                }
            }
            Step::Write(k) => {
                let v = e.fresh();
                let mut m = e.model.borrow_mut();
                let done = match e.handles.borrow().iter().find(|(x, reg, _)| x == k && m.resources[*k].is_some_and(|y| y.0 == *reg)) {
                    Some((_, _, h)) => h.set(v),
                    None => Handle::new(s.resources(), *k).set(v),
                };
                e.expect(&format!("a write to resource {k} finds it"), done.is_some(), m.resources[*k].is_some());
                if let Some(x) = &mut m.resources[*k] {
                    x.1 = v;
                }
            }
            Step::Save(id) => {
                let v = e.fresh();
                e.ran.borrow_mut().clear();
                let r = Save::new(N { id: *id, v }).execute(s.transaction());
                let mut m = e.model.borrow_mut();
                m.graph.insert(*id, v);
                let want: Vec<u64> = m.triggers[0].iter().chain(&m.triggers[1]).copied().collect();
                e.expect("a save on the schema so far succeeds", r.is_ok(), true);
                e.expect("triggers run by a save on the schema so far", &*e.ran.borrow(), &want);
                e.count("operations");
            }
            Step::Delete(id) => {
                e.ran.borrow_mut().clear();
                let r = Delete::new(*id).execute(s.transaction());
                let mut m = e.model.borrow_mut();
                let had = m.graph.remove(id).is_some();
                let want: Vec<u64> = if had { m.triggers[2].iter().chain(&m.triggers[3]).copied().collect() } else { vec![] };
                e.expect("a delete on the schema so far succeeds", r.is_ok(), had);
                e.expect("triggers run by a delete on the schema so far", &*e.ran.borrow(), &want);
                e.count("operations");
            }
            Step::Fire(ev) => {
                e.ran.borrow_mut().clear();
                let r = s.transaction().with(|ctx| on_event!(*ev, fire(ctx.triggers(), &ctx)));
                e.expect("firing succeeds", r.is_ok(), true);
                e.expect("triggers run by an event on the schema so far", &*e.ran.borrow(), &e.model.borrow().triggers[*ev]);
            }
            Step::Failed => {
                let r: plotline::schema::Result<()> = s.transaction().with(|ctx| {
                    ctx.save(N { id: 200, v: 1 });
                    ctx.delete(0);
                    Err(Error::custom("no"))
                });
                e.expect("a failing transaction fails", r.is_err(), true);
                let g = s.read();
                e.expect("what a failed transaction saved is there", g.contains(&200), false);
                e.expect("what a failed transaction saved is found", g.node(200).try_deref().is_some(), false);
            }
            Step::Sets { events, kinds } => sets(e, &s, events, kinds),
        }
        let seen = e.installs.borrow().len() + e.log.borrow().len();
        if seen % 3 == 0 {
            check(e, &s, "while building");
        }
    }
    s
}

/// Sets of resources and triggers that belong to no schema.
fn sets(e: &Rc<Env>, s: &S, events: &[usize], kinds: &[usize]) {
    let mut set = ResourceSet::default();
    let mut want = [None; KINDS];
    for k in kinds {
        let v = e.fresh();
        set = match k {
            0 => set.with_resource(RA(v)),
            1 => set.with_resource(RB(v, [v; 40])),
            2 => set.with_resource(RC(v, 0u8)),
            3 => set.with_resource(RC(v, String::from("x"))),
            _ => set.with_resource(v),
        };
        want[*k] = Some(v);
    }
    for k in 0..KINDS {
        e.expect("a resource of a set of its own", Handle::new(&set, k).get(), want[k]);
    }
    let mut set = TriggerSet::<N>::default();
    let mut want: [Vec<u64>; EVENTS] = Default::default();
    for ev in events {
        let label = e.fresh();
        let ran = e.ran.clone();
        set = on_event!(*ev, register(set, label as usize % 6, ran, label));
        want[*ev].push(label);
    }
    for ev in 0..EVENTS {
        e.ran.borrow_mut().clear();
        let r = s.transaction().with(|ctx| on_event!(ev, fire(set, &ctx)));
        e.expect("an event of a set of its own succeeds", r.is_ok(), true);
        e.expect("triggers of a set of its own", &*e.ran.borrow(), &want[ev]);
    }
    e.count("sets");
}

pub fn c27(c: &mut Case) -> Result<(), Violation> {
    let mut r = c.rng();
    let n = if r.chance(5) { 20 + r.below(60) } else { 1 + r.below(16) };
    let steps = gen(&mut r, n, 0);
    let e = Rc::new(Env {
        model: Default::default(),
        ran: Default::default(),
        next: Cell::new(0),
        installs: Default::default(),
        handles: Default::default(),
        log: Default::default(),
        bad: Default::default(),
        counts: Default::default(),
    });
    let mut graph = Graph::default();
    for id in 0..r.below(5) as u8 {
        let v = e.fresh();
        graph = graph.with_node(N { id, v });
        e.model.borrow_mut().graph.insert(id, v);
    }
    let s = build(&e, S::from(graph), &steps);
    check(&e, &s, "once built");
    // The schema as it is used: through a shared reference.
    let s = Rc::new(s);
    for id in 0..2u8 {
        let v = e.fresh();
        e.ran.borrow_mut().clear();
        let ok = Save::new(N { id, v }).execute(s.transaction()).is_ok();
        let mut m = e.model.borrow_mut();
        m.graph.insert(id, v);
        let want: Vec<u64> = m.triggers[0].iter().chain(&m.triggers[1]).copied().collect();
        e.expect("a save on the schema built succeeds", ok, true);
        e.expect("triggers run by a save on the schema built", &*e.ran.borrow(), &want);
    }
    check(&e, &s, "in use");
    for (k, n) in e.counts.borrow().iter() {
        c.count(k, *n);
    }
    c.nontrivial = steps.len() > 1;
    for l in e.log.borrow().iter() {
        l.bytes().for_each(|b| c.hash = vcommon::mix(c.hash ^ b as u64));
    }
    if c.idx < 8 {
        c.sample = Some(format!("{steps:?}"));
    }
    let bad = e.bad.borrow_mut().take();
    // The plugins of the plan refer to the environment.
    e.handles.borrow_mut().clear();
    match bad {
        Some(m) => Err(Violation::new(m, format!("{steps:?}\n--- run\n{}", e.log.borrow().join("\n")))),
        None => Ok(()),
    }
}
