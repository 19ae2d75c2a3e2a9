//! Which of the library's types can be shared between, or moved to, threads by safe code is asked of
//! the compiler, and whatever can be is: several threads then use it at once, around values that are
//! themselves not thread-safe (`Rc<Cell<_>>`). Run under a race detector (C23). On a sound library
//! no type that lets those values be reached is shareable, and nothing runs.

use std::cell::Cell;
use std::rc::Rc;
use std::sync::Arc;

use plotline::deref::{ReadOnly, ReadWrite, TryDeref, TryDerefMut, With, WithMut};
use plotline::document::{lazy::LazyDocument, DocumentRepository};
use plotline::graph::{Graph, NodeProxy, Source};
use plotline::id::Identify;
use plotline::prelude::{Ctx, Transaction};
use plotline::schema::guard::{SchemaReadGuard, SchemaWriteGuard};
use plotline::schema::resource::{Res, ResReadGuard, ResWriteGuard, ResourceSet};
use plotline::schema::transaction::{Background, Context, Foreground, Target};
use plotline::schema::trigger::{Trigger, TriggerSet};
use plotline::schema::Schema;
use vcommon::{Case, Violation};

type Local = Rc<Cell<u64>>;

fn touch(x: &Local) {
    let y = x.clone();
    y.set(y.get().wrapping_add(1));
}

/// A node that is not thread-safe.
#[derive(Clone, Debug)]
pub struct N {
    id: u32,
    x: Local,
}
impl Identify for N {
    type Id = u32;
    fn id(&self) -> &u32 {
        &self.id
    }
}
fn node() -> N {
    N { id: 1, x: Local::default() }
}
/// A node that is.
#[derive(Clone)]
pub struct P(u32);
impl Identify for P {
    type Id = u32;
    fn id(&self) -> &u32 {
        &self.0
    }
}

/// A repository and a document that are not thread-safe.
pub struct Repo(Local);
impl DocumentRepository for Repo {
    type Document = N;
    fn find_by_id(&self, id: &u32) -> Option<N> {
        touch(&self.0);
        Some(N { id: *id, x: self.0.clone() })
    }
}

pub struct Probe<T>(pub T);

/// Used when the type is `Sync`.
pub trait Shared<T> {
    fn share(&self, f: fn(&T)) -> bool;
}
impl<T: Sync> Shared<T> for Probe<T> {
    fn share(&self, f: fn(&T)) -> bool {
        std::thread::scope(|s| {
            for _ in 0..3 {
                s.spawn(|| {
                    for _ in 0..8 {
                        f(&self.0)
                    }
                });
            }
        });
        true
    }
}
/// Used when it is not.
pub trait NotShared<T> {
    fn share(&self, _: fn(&T)) -> bool;
}
impl<T> NotShared<T> for &Probe<T> {
    fn share(&self, _: fn(&T)) -> bool {
        false
    }
}

/// Used when the type is `Send`: another thread uses and drops the value while this one uses what it
/// has in common with it.
pub trait Moved<T> {
    fn hand_over(self, f: fn(&T), meanwhile: &dyn Fn()) -> bool;
}
impl<T: Send> Moved<T> for Probe<T> {
    fn hand_over(self, f: fn(&T), meanwhile: &dyn Fn()) -> bool {
        std::thread::scope(|s| {
            let p = self;
            s.spawn(move || {
                let p = p;
                for _ in 0..8 {
                    f(&p.0)
                }
                drop(p);
            });
            for _ in 0..8 {
                meanwhile();
            }
        });
        true
    }
}
pub trait NotMoved<T> {
    fn hand_over(self, f: fn(&T), meanwhile: &dyn Fn()) -> bool;
}
impl<T> NotMoved<T> for &Probe<T> {
    fn hand_over(self, _: fn(&T), _: &dyn Fn()) -> bool {
        false
    }
}

fn set_of(x: &Local) -> ResourceSet {
    ResourceSet::default().with_resource(x.clone())
}
fn use_set(s: &ResourceSet) {
    Res::<Local>::from(s).with(touch);
}
fn use_set_mut(s: &ResourceSet) {
    Res::<Local>::from(s).with_mut(|x| touch(x));
}
fn use_res(r: &Res<Local>) {
    r.with(touch);
}
fn schema_of(x: &Local) -> Schema<P> {
    let y = x.clone();
    Schema::from(Graph::default()).with_resource(x.clone()).with_trigger((), move |_: Ctx<P>, r: Res<Local>| {
        touch(&y);
        r.with(touch);
        Ok(())
    })
}
fn use_schema(s: &Schema<P>) {
    use_set(s.resources());
    let _ = s.transaction().with(|c| c.triggers().select(()).execute(&c));
}
fn use_triggers(t: &TriggerSet<P>) {
    let own: Schema<P> = Graph::default().into();
    let _ = own.transaction().with(|c| t.select(()).execute(&c));
}
fn use_nodes(s: &Schema<N>) {
    if let Some(n) = s.read().get(&1) {
        touch(&n.x)
    }
}
fn use_graph(g: &Graph<N>) {
    if let Some(n) = g.get(&1) {
        touch(&n.x)
    }
}
fn use_handle(p: &NodeProxy<'_, Graph<N>>) {
    if let Some(n) = p.clone().try_deref() {
        touch(&n.x)
    }
}
fn use_lazy(l: &LazyDocument<Repo>) {
    if let Some(n) = l.clone().try_deref() {
        touch(&n.x)
    }
}
fn use_target(t: &Target<N>) {
    t.with(|n| touch(&n.x));
}

/// Each probe: whether the value could be shared or moved, and so was.
pub fn run(c: &mut Case) -> Result<(), Violation> {
    let mut probes = 0u64;
    let mut used = 0u64;
    let mut note = |b: bool| {
        probes += 1;
        used += b as u64;
    };
    // The probes themselves work: these may be shared and moved.
    let plain = Probe(std::sync::atomic::AtomicU64::new(0));
    assert!((&plain).share(|x| { x.fetch_add(1, std::sync::atomic::Ordering::Relaxed); }));
    assert!(plain.hand_over(|_| (), &|| ()));
    let graph = Probe(Graph::default().with_node(P(1)));
    assert!((&graph).share(|g: &Graph<P>| { g.get(&1); }));

    let x = Local::default();
    note((&Probe(set_of(&x))).share(use_set));
    note((&Probe(set_of(&x))).share(use_set_mut));
    note((&Probe(Res::<Local>::from(&set_of(&x)))).share(use_res));
    note((&Probe(schema_of(&x))).share(use_schema));
    note((&Probe(schema_of(&x))).share(|s| use_triggers(s.triggers())));
    note((&Probe(Schema::from(Graph::default().with_node(node())))).share(use_nodes));
    let g = Graph::default().with_node(node());
    note((&Probe(g.node(1))).share(use_handle));
    note((&Probe(g)).share(use_graph));
    note((&Probe(LazyDocument::builder(Arc::new(Repo(x.clone())))(1))).share(use_lazy));
    note((&Probe(LazyDocument::new(Arc::new(Repo(x.clone())), node()))).share(use_lazy));
    let mut t = Target::default();
    t.set(node());
    note((&Probe(t.clone())).share(use_target));
    note((&Probe(TriggerSet::<P>::default().with_trigger((), {
        let x = x.clone();
        move |_: Ctx<P>| {
            touch(&x);
            Ok(())
        }
    }))).share(use_triggers));
    {
        let res = Res::<Local>::from(&set_of(&x));
        note((&Probe(res.read())).share(|g: &ResReadGuard<'_, Local>| { g.try_deref().map(touch); }));
        note((&Probe(res.write())).share(|g: &ResWriteGuard<'_, Local>| { g.try_deref().map(touch); }));
        let mut w = res.write();
        w.try_deref_mut().map(|x| touch(x));
    }
    {
        let s = Schema::from(Graph::default().with_node(node()));
        note((&Probe(s.read())).share(|g: &SchemaReadGuard<'_, N>| use_graph(g)));
        note((&Probe(s.write())).share(|g: &SchemaWriteGuard<'_, N>| use_graph(g)));
        note((&Probe(s.transaction())).share(|_: &Background<'_, N>| ()));
        let _ = s.transaction().with(|ctx| {
            let ctx = ctx.with_target(node());
            ctx.save(node());
            let p = Probe(ctx);
            note((&p).share(|c: &Context<'_, N>| {
                if let Some(n) = c.get(&1) {
                    touch(&n.x)
                }
            }));
            note((&p).share(|c: &Context<'_, N>| {
                c.target().with(|n| touch(&n.x));
            }));
            note((&Probe(p.0.transaction())).share(|_: &Foreground<'_, N>| ()));
            note((&Probe(p.0.node(1))).share(|h: &NodeProxy<'_, Context<'_, N>>| {
                if let Some(n) = h.try_deref() {
                    touch(&n.x)
                }
            }));
            note((&Probe(Ctx::from(&p.0))).share(|c: &Ctx<'_, N>| {
                let _ = c.transaction().with(|c| {
                    if let Some(n) = c.get(&1) {
                        touch(&n.x)
                    }
                    Ok(())
                });
            }));
            Ok(())
        });
    }

    let y = x.clone();
    let meanwhile = move || touch(&y);
    macro_rules! hand {
        ($v:expr, $f:expr) => {
            note(Probe($v).hand_over($f, &meanwhile))
        };
    }
    hand!(set_of(&x), use_set);
    hand!(Res::<Local>::from(&set_of(&x)), use_res);
    hand!(schema_of(&x), use_schema);
    let n = N { id: 1, x: x.clone() };
    hand!(Schema::from(Graph::default().with_node(n.clone())), use_nodes);
    hand!(Graph::default().with_node(n.clone()), use_graph);
    let g = Graph::default().with_node(n.clone());
    hand!(g.node(1), use_handle);
    hand!(LazyDocument::builder(Arc::new(Repo(x.clone())))(1), use_lazy);
    hand!(LazyDocument::new(Arc::new(Repo(x.clone())), n.clone()), use_lazy);
    let mut t = Target::default();
    t.set(n.clone());
    hand!(t, use_target);

    c.count("sharing_probes", probes);
    c.count("shared_anyway", used);
    c.mixh(probes << 8 | used);
    Ok(())
}
