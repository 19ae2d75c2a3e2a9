//! C09: resources as one shared register per type. C19 (part): release of resources and triggers.
//! C22: scoped access over instrumented accessors, tuples, resources, and threads.

use std::any::Any;
use std::cell::{Cell, RefCell};
use std::collections::BTreeMap;
use std::marker::PhantomData;
use std::panic::{catch_unwind, resume_unwind, AssertUnwindSafe};
use std::rc::Rc;
use std::sync::{Arc, Barrier, RwLock, RwLockReadGuard, RwLockWriteGuard};

use plotline::deref::{ReadOnly, ReadWrite, TryDeref, TryDerefMut, With, WithMut};
use plotline::graph::Graph;
use plotline::schema::ops::save::{AfterSave, BeforeSave, Save};
use plotline::schema::plugin::Plugin;
use plotline::schema::resource::{Res, ResourceSet};
use plotline::schema::transaction::{Context, Ctx, Target, Transaction};
use plotline::schema::{Error, Result as SResult, Schema};
use vcommon::{Case, Rng, Violation};

use crate::node::Node;

type N = Node<u32>;
type R = Result<(), Violation>;

// ------------------------------------------------------------------ resource types

pub trait Payload: Sized + 'static {
    fn make(v: u64) -> Self;
    fn get(&self) -> u64;
    fn put(&mut self, v: u64) {
        *self = Self::make(v)
    }
    /// What of a value this type can keep.
    fn norm(v: u64) -> u64 {
        v
    }
}

/// Carries nothing.
pub struct Marker;
impl Payload for Marker {
    fn make(_: u64) -> Self {
        Marker
    }
    fn get(&self) -> u64 {
        0
    }
    fn norm(_: u64) -> u64 {
        0
    }
}
impl Payload for () {
    fn make(_: u64) {}
    fn get(&self) -> u64 {
        0
    }
    fn norm(_: u64) -> u64 {
        0
    }
}
impl Payload for bool {
    fn make(v: u64) -> Self {
        v % 2 == 1
    }
    fn get(&self) -> u64 {
        *self as u64
    }
    fn norm(v: u64) -> u64 {
        v % 2
    }
}
/// Values of unusual sizes: `W` words, all of which must be kept.
pub struct Big<const W: usize>([u64; W]);
impl<const W: usize> Payload for Big<W> {
    fn make(v: u64) -> Self {
        let mut w = [v; W];
        for (i, x) in w.iter_mut().enumerate() {
            *x = v.wrapping_add(i as u64);
        }
        Big(w)
    }
    fn get(&self) -> u64 {
        let v = self.0[0];
        for i in [W / 3, W / 2, W - 1] {
            assert_eq!(self.0[i], v.wrapping_add(i as u64), "a wide resource is torn");
        }
        v
    }
}
#[repr(align(512))]
pub struct Aligned(u64);
impl Payload for Aligned {
    fn make(v: u64) -> Self {
        Aligned(v)
    }
    fn get(&self) -> u64 {
        assert_eq!(self as *const Self as usize % 512, 0, "an over-aligned resource is misplaced");
        self.0
    }
}

pub struct P<const I: usize>(u64);
impl<const I: usize> Payload for P<I> {
    fn make(v: u64) -> Self {
        P(v)
    }
    fn get(&self) -> u64 {
        self.0
    }
    fn put(&mut self, v: u64) {
        self.0 = v
    }
}
mod a {
    pub struct Same(pub u64);
}
mod b {
    pub struct Same(pub u64);
}
pub struct Gen<T>(u64, PhantomData<T>);
macro_rules! payload {
    ($($t:ty, $x:ident => $mk:expr, $s:ident => $get:expr;)*) => {
        $(impl Payload for $t {
            fn make($x: u64) -> Self { $mk }
            fn get(&self) -> u64 { let $s = self; $get }
        })*
    };
}
payload! {
    u64, v => v, s => *s;
    i64, v => v as i64, s => *s as u64;
    String, v => v.to_string(), s => s.parse().unwrap();
    Vec<u8>, v => v.to_le_bytes().to_vec(), s => u64::from_le_bytes(s.as_slice().try_into().unwrap());
    Vec<u64>, v => vec![v; 3], s => s[1];
    Box<i32>, v => Box::new(v as i32), s => **s as u64;
    Box<dyn Any>, v => Box::new(v), s => *(**s).downcast_ref::<u64>().unwrap();
    Option<u64>, v => Some(v), s => s.unwrap();
    (u64, u32), v => (v, 7), s => s.0;
    a::Same, v => a::Same(v), s => s.0;
    b::Same, v => b::Same(v), s => s.0;
    Gen<u8>, v => Gen(v, PhantomData), s => s.0;
    Gen<u16>, v => Gen(v, PhantomData), s => s.0;
    Rc<Cell<u64>>, v => Rc::new(Cell::new(v)), s => Cell::get(s);
    Arc<u64>, v => Arc::new(v), s => **s;
    Box<dyn Fn() -> u64>, v => Box::new(move || v), s => s();
    Option<Box<dyn Any>>, v => Some(Box::new(v)), s => *s.as_ref().unwrap().downcast_ref::<u64>().unwrap();
    Box<Box<dyn Any>>, v => Box::new(Box::new(v)), s => *(***s).downcast_ref::<u64>().unwrap();
    Box<Option<Box<dyn Any>>>, v => Box::new(Some(Box::new(v))), s => *(**s).as_ref().unwrap().downcast_ref::<u64>().unwrap();
    Vec<Box<dyn Any>>, v => vec![Box::new(v)], s => *(*s[0]).downcast_ref::<u64>().unwrap();
    Rc<dyn Any>, v => Rc::new(v), s => *(**s).downcast_ref::<u64>().unwrap();
    Arc<RwLock<Box<dyn Any>>>, v => Arc::new(RwLock::new(Box::new(v))), s => *(**RwLock::read(s).unwrap()).downcast_ref::<u64>().unwrap();
    RwLock<Box<dyn Any>>, v => RwLock::new(Box::new(v)), s => *(**RwLock::read(s).unwrap()).downcast_ref::<u64>().unwrap();
    RwLock<u64>, v => RwLock::new(v), s => *RwLock::read(s).unwrap();
    Result<u64, u64>, v => Err(v), s => s.unwrap_err();
    Rc<RefCell<u64>>, v => Rc::new(RefCell::new(v)), s => *RefCell::borrow(s);
    Option<Rc<u64>>, v => Some(Rc::new(v)), s => **s.as_ref().unwrap();
    Box<u64>, v => Box::new(v), s => **s;
    [u64; 2], v => [v, !v], s => { assert_eq!(s[0], !s[1]); s[0] };
}

/// A handle with its type erased.
trait Handle {
    fn read(&self) -> Option<u64>;
    fn read_guard(&self) -> Option<u64>;
    fn two_reads(&self) -> (Option<u64>, Option<u64>);
    fn exists(&self) -> bool;
    fn write(&self, v: u64) -> bool;
    fn write_guard(&self, v: u64) -> (Option<u64>, bool);
    fn panic_write(&self, v: u64) -> bool;
}
impl<T: Payload> Handle for Res<T> {
    fn read(&self) -> Option<u64> {
        self.with(|x| x.get())
    }
    fn read_guard(&self) -> Option<u64> {
        ReadOnly::read(self).try_deref().map(|x| x.get())
    }
    fn two_reads(&self) -> (Option<u64>, Option<u64>) {
        let (g, h) = (ReadOnly::read(self), ReadOnly::read(self));
        (g.try_deref().map(|x| x.get()), h.try_deref().map(|x| x.get()))
    }
    fn exists(&self) -> bool {
        Res::exists(self)
    }
    fn write(&self, v: u64) -> bool {
        self.with_mut(|x| x.put(v)).is_some()
    }
    fn write_guard(&self, v: u64) -> (Option<u64>, bool) {
        let mut g = ReadWrite::write(self);
        let old = g.try_deref().map(|x| x.get());
        (old, g.try_deref_mut().map(|x| x.put(v)).is_some())
    }
    fn panic_write(&self, v: u64) -> bool {
        let mut ran = false;
        let _ = catch_unwind(AssertUnwindSafe(|| {
            self.with_mut(|x| {
                x.put(v);
                ran = true;
                resume_unwind(Box::new(()));
            })
        }));
        ran
    }
}

struct Ty {
    name: &'static str,
    register: fn(Schema<N>, u64) -> Schema<N>,
    install: fn(Schema<N>, u64) -> Schema<N>,
    handle: fn(&ResourceSet) -> Box<dyn Handle>,
    from_ctx: fn(&Context<'_, N>) -> Box<dyn Handle>,
    norm: fn(u64) -> u64,
}
struct Install<T>(T);
impl<T: Payload> Plugin<N> for Install<T> {
    fn install(self, s: Schema<N>) -> Schema<N> {
        s.with_resource(self.0)
    }
}
fn ty<T: Payload>(name: &'static str) -> Ty {
    Ty {
        name,
        register: |s, v| s.with_resource(T::make(v)),
        install: |s, v| s.install(Install(T::make(v))),
        handle: |r| Box::new(Res::<T>::from(r)),
        from_ctx: |c| Box::new(Res::<T>::from(c)),
        norm: T::norm,
    }
}
macro_rules! tys {
    ($($t:ty),*) => { vec![$(ty::<$t>(stringify!($t))),*] };
}
/// Distinct types that share a name: each lives in its own block.
fn same_names() -> [Ty; 2] {
    let one = {
        struct Local(u64);
        impl Payload for Local {
            fn make(v: u64) -> Self {
                Local(v)
            }
            fn get(&self) -> u64 {
                self.0
            }
        }
        ty::<Local>("Local (first block)")
    };
    let two = {
        struct Local(u64);
        impl Payload for Local {
            fn make(v: u64) -> Self {
                Local(v ^ 1)
            }
            fn get(&self) -> u64 {
                self.0 ^ 1
            }
        }
        ty::<Local>("Local (second block)")
    };
    [one, two]
}
fn all_types() -> Vec<Ty> {
    let mut v = plain_types();
    v.extend(same_names());
    v.extend(tys![
        Option<Box<dyn Any>>, Box<Box<dyn Any>>, Box<Option<Box<dyn Any>>>, Vec<Box<dyn Any>>, Rc<dyn Any>, Arc<RwLock<Box<dyn Any>>>,
        RwLock<Box<dyn Any>>, RwLock<u64>, Result<u64, u64>, Rc<RefCell<u64>>, Option<Rc<u64>>, Box<u64>
    ]);
    v.extend(tys![Marker, (), bool, Big<3>, Big<9>, Big<33>, Big<130>, Big<513>, Big<1030>, Big<9000>, Aligned, Box<dyn Fn() -> u64>]);
    v
}
fn plain_types() -> Vec<Ty> {
    tys![
        P<0>, P<1>, P<2>, P<3>, u64, i64, String, Vec<u8>, Vec<u64>, Box<i32>, Box<dyn Any>, Option<u64>, (u64, u32),
        a::Same, b::Same, Gen<u8>, Gen<u16>, Rc<Cell<u64>>, Arc<u64>, [u64; 2]
    ]
}

#[derive(Clone, Copy)]
struct Reg {
    val: u64,
    poisoned: bool,
}

struct World {
    tys: Vec<Ty>,
    /// Current value per type, and one register per superseded registration.
    cells: Vec<Reg>,
    cur: Vec<Option<usize>>,
    log: Vec<String>,
    next: u64,
}

struct Live {
    t: usize,
    cell: Option<usize>,
    h: Box<dyn Handle>,
}

impl World {
    fn uid(&mut self) -> u64 {
        self.next += 1;
        self.next
    }
    fn bad(&self, m: String) -> Violation {
        let from = self.log.len().saturating_sub(80);
        Violation::new(m, self.log[from..].join("\n"))
    }
    fn check(&self, l: &Live, got: Option<u64>, how: &str) -> R {
        let norm = self.tys[l.t].norm;
        let own = l.cell.map(|c| self.cells[c]);
        let ok = match (own, got) {
            (None, None) => true,
            (Some(r), Some(v)) if norm(r.val) == v => true,
            (Some(r), None) => r.poisoned,
            _ => false,
        };
        // A handle from before a re-registration may see either register.
        let superseded = l.cell != self.cur[l.t];
        let alt = superseded && match (self.cur[l.t].map(|c| self.cells[c]), got) {
            (Some(r), Some(v)) => norm(r.val) == v,
            (Some(r), None) => r.poisoned,
            _ => false,
        };
        if ok || alt {
            Ok(())
        } else {
            Err(self.bad(format!("{how} of {} gives {got:?}, last written {:?}", self.tys[l.t].name, own.map(|r| r.val))))
        }
    }
    fn wrote(&mut self, l: &Live, ran: bool, v: u64, how: &str) -> R {
        match l.cell {
            None if ran && self.cur[l.t].is_none() => Err(self.bad(format!("{how} of unregistered {} ran", self.tys[l.t].name))),
            Some(c) if !ran && !self.cells[c].poisoned => Err(self.bad(format!("{how} of {} did not run", self.tys[l.t].name))),
            Some(c) if ran => {
                self.cells[c].val = v;
                Ok(())
            }
            _ => Ok(()),
        }
    }
    /// One random use of a handle.
    fn use_one(&mut self, l: &Live, r: &mut Rng, c: &mut Case, place: &str) -> R {
        let name = self.tys[l.t].name;
        c.count("handle_uses", 1);
        match r.below(8) {
            0 | 1 => {
                let got = l.h.read();
                self.log.push(format!("{place}: read {name} -> {got:?}"));
                self.check(l, got, "read")
            }
            2 => {
                let got = l.h.read_guard();
                self.check(l, got, "guarded read")?;
                let (x, y) = l.h.two_reads();
                self.check(l, x, "first of two reads")?;
                self.check(l, y, "second of two reads")
            }
            3 => {
                let e = l.h.exists();
                let want = l.cell.is_some();
                let lax = l.cell.is_some_and(|c| self.cells[c].poisoned) || l.cell != self.cur[l.t];
                if e != want && !lax {
                    return Err(self.bad(format!("exists() of {name} is {e}, registered: {want}")));
                }
                Ok(())
            }
            4 | 5 => {
                let v = self.uid();
                let ran = l.h.write(v);
                self.log.push(format!("{place}: write {name} := {v} ran={ran}"));
                c.count("writes", 1);
                self.wrote(l, ran, v, "write")
            }
            6 => {
                let v = self.uid();
                let (old, ran) = l.h.write_guard(v);
                self.check(l, old, "read through write access")?;
                self.log.push(format!("{place}: guarded write {name} := {v} ran={ran}"));
                c.count("writes", 1);
                self.wrote(l, ran, v, "guarded write")
            }
            _ => {
                if r.chance(25) {
                    let v = self.uid();
                    let ran = l.h.panic_write(v);
                    self.log.push(format!("{place}: write {name} := {v} panics, ran={ran}"));
                    self.wrote(l, ran, v, "write")?;
                    if let (true, Some(cell)) = (ran, l.cell) {
                        self.cells[cell].poisoned = true;
                        c.count("panics_while_writing", 1);
                    }
                }
                Ok(())
            }
        }
    }
    /// Every type, through a fresh handle.
    fn audit(&self, set: &ResourceSet, c: &mut Case, place: &str) -> R {
        for t in 0..self.tys.len() {
            let l = Live { t, cell: self.cur[t], h: (self.tys[t].handle)(set) };
            self.check(&l, l.h.read(), &format!("{place}: audit"))?;
            c.count("audits", 1);
        }
        Ok(())
    }
}

/// Two fixed trigger signatures, so that resources also arrive as parameters.
struct TrigPlan {
    shared: Rc<RefCell<World>>,
    fails: Rc<Cell<u8>>,
    err: Rc<RefCell<Option<Violation>>>,
    seed: Rc<Cell<u64>>,
    uses: Rc<Cell<u64>>,
}
impl TrigPlan {
    fn run(&self, hs: Vec<(usize, Box<dyn Handle>)>) -> SResult<()> {
        let s = self.seed.get();
        self.seed.set(vcommon::mix(s));
        let mut r = Rng::new(s);
        let mut c = Case::detached("C09", vcommon::Tier::Quick, s, 0);
        let mut w = self.shared.borrow_mut();
        let w = &mut *w;
        let ls: Vec<Live> = hs.into_iter().map(|(t, h)| Live { t, cell: w.cur[t], h }).collect();
        for _ in 0..1 + r.below(4) {
            let i = r.below(ls.len());
            if let Err(v) = w.use_one(&ls[i], &mut r, &mut c, "trigger") {
                self.err.borrow_mut().get_or_insert(v);
                return Ok(());
            }
            self.uses.set(self.uses.get() + 1);
        }
        match self.fails.get() {
            1 => Err(Error::custom("trigger fails")),
            2 => resume_unwind(Box::new(())),
            _ => Ok(()),
        }
    }
}

pub fn c09(c: &mut Case) -> R {
    let mut r = c.rng();
    let tys = all_types();
    let nt = tys.len();
    let world = Rc::new(RefCell::new(World { tys, cells: vec![], cur: vec![None; nt], log: vec![], next: 0 }));
    let mut schema = Some(Schema::<N>::from(Graph::default()));
    let mut live: Vec<Live> = vec![];
    let fails = Rc::new(Cell::new(0u8));
    let seed = Rc::new(Cell::new(r.u64()));
    let err = Rc::new(RefCell::new(None));
    let uses = Rc::new(Cell::new(0));
    let plan = || TrigPlan { shared: world.clone(), fails: fails.clone(), err: err.clone(), seed: seed.clone(), uses: uses.clone() };
    // Parameters: P<0>, String | Gen<u16>, u64, a::Same, Gen<u8> (some may be unregistered).
    let (p1, p2) = (plan(), plan());
    schema = schema.map(|s| {
        s.with_trigger(BeforeSave, move |_: Ctx<'_, N>, x: Res<P<0>>, y: Res<String>| p1.run(vec![(0, Box::new(x)), (6, Box::new(y))]))
            .with_trigger(AfterSave, move |_: Ctx<'_, N>, x: Res<Gen<u16>>, y: Res<u64>, z: Res<a::Same>, w: Res<Gen<u8>>| {
                p2.run(vec![(16, Box::new(x)), (4, Box::new(y)), (13, Box::new(z)), (15, Box::new(w))])
            })
    });
    let focus: Vec<usize> = (0..1 + r.below(6)).map(|_| r.below(nt)).collect();
    let steps = 15 + r.below(50);
    let crowd = r.chance(3);
    for i in 0..steps {
        let t = if r.chance(60) { *r.pick(&focus) } else if r.chance(25) { r.below(nt) } else { *r.pick(&[0, 6, 16, 4, 13, 15, 14, 5, 20, 21]) };
        match r.below(9) {
            0 | 1 => {
                let mut w = world.borrow_mut();
                let v = w.uid();
                let name = w.tys[t].name;
                w.log.push(format!("register {name} := {v}"));
                w.cells.push(Reg { val: v, poisoned: false });
                c.count("re_registrations", w.cur[t].is_some() as u64);
                c.count("registrations", 1);
                let last = w.cells.len() - 1;
                w.cur[t] = Some(last);
                let f = if r.chance(30) { w.tys[t].install } else { w.tys[t].register };
                schema = schema.take().map(|s| f(s, v));
            }
            2 | 3 => {
                let w = world.borrow();
                let s = schema.as_ref().unwrap();
                live.push(Live { t, cell: w.cur[t], h: (w.tys[t].handle)(s.resources()) });
            }
            4 | 5 if !live.is_empty() => {
                let l = &live[r.below(live.len())];
                world.borrow_mut().use_one(l, &mut r, c, "outside")?;
            }
            6 => {
                // Inside a transaction, with any outcome.
                let s = schema.as_ref().unwrap();
                let end = r.below(3);
                let n = 1 + r.below(4);
                let mut inner: R = Ok(());
                let rr = &mut r;
                let focus = &focus;
                let res = catch_unwind(AssertUnwindSafe(|| {
                    s.transaction().with(|ctx| {
                        for _ in 0..n {
                            let t = *rr.pick(focus);
                            let mut w = world.borrow_mut();
                            let l = Live { t, cell: w.cur[t], h: (w.tys[t].from_ctx)(&ctx) };
                            inner = w.use_one(&l, rr, c, "transaction");
                            if inner.is_err() {
                                return Ok(());
                            }
                        }
                        match end {
                            0 => Ok(()),
                            1 => Err(Error::Noop),
                            _ => resume_unwind(Box::new(())),
                        }
                    })
                }));
                c.count("transactions", 1);
                c.count("failed_transactions", !matches!(res, Ok(Ok(()))) as u64);
                inner?;
            }
            7 => {
                let s = schema.as_ref().unwrap();
                fails.set(*r.pick(&[0, 0, 0, 1, 2]));
                let res = catch_unwind(AssertUnwindSafe(|| Save::new(Node::new(i % 3, 0, i as u64, 0, 3)).execute(s.transaction())));
                c.count("failed_transactions", !matches!(res, Ok(Ok(()))) as u64);
                fails.set(0);
                if let Some(v) = err.borrow_mut().take() {
                    return Err(v);
                }
            }
            _ if !live.is_empty() => {
                let i = r.below(live.len());
                live.swap_remove(i);
            }
            _ => {}
        }
        if crowd && i == steps / 2 {
            // Very many handles of one type in use at once.
            let mut w = world.borrow_mut();
            let w = &mut *w;
            let s = schema.as_ref().unwrap();
            let t = focus[0];
            let n = *r.pick(&[40, 70, 130, 260, 300, 1030]);
            let all: Vec<Live> = (0..n).map(|_| Live { t, cell: w.cur[t], h: (w.tys[t].handle)(s.resources()) }).collect();
            w.log.push(format!("{n} handles of {}", w.tys[t].name));
            c.count("crowds", 1);
            for _ in 0..12 {
                let l = &all[r.below(n)];
                w.use_one(l, &mut r, c, "crowd")?;
            }
            for l in &all {
                w.check(l, l.h.read(), "read in a crowd")?;
            }
        }
        if r.chance(20) {
            world.borrow().audit(schema.as_ref().unwrap().resources(), c, "outside")?;
        }
    }
    world.borrow().audit(schema.as_ref().unwrap().resources(), c, "finally")?;
    for l in &live {
        world.borrow().check(l, l.h.read(), "final read through an old handle")?;
    }
    // Handles outlive the schema.
    drop(schema);
    for l in &live {
        world.borrow().check(l, l.h.read(), "read after the schema was dropped")?;
    }
    c.count("trigger_uses", uses.get());
    let w = world.borrow();
    for (t, x) in w.cur.iter().enumerate() {
        if let Some(x) = x {
            c.mixh((t as u64) << 48 ^ w.cells[*x].val);
        }
    }
    c.mixh(w.next);
    c.nontrivial = w.next > 3;
    if c.idx < 6 {
        c.sample = Some(w.log.iter().take(25).cloned().collect::<Vec<_>>().join("; "));
    }
    Ok(())
}

// ------------------------------------------------------------------ C19: release

#[derive(Clone, Default)]
struct Ledger(Rc<RefCell<BTreeMap<u64, i64>>>);
struct Tok(Ledger, u64);
impl Ledger {
    fn tok(&self, id: u64) -> Tok {
        *self.0.borrow_mut().entry(id).or_insert(0) += 1;
        Tok(self.clone(), id)
    }
    fn alive(&self, id: u64) -> i64 {
        self.0.borrow().get(&id).copied().unwrap_or(0)
    }
}
impl Drop for Tok {
    fn drop(&mut self) {
        *self.0 .0.borrow_mut().get_mut(&self.1).unwrap() -= 1;
    }
}
struct TR<const I: usize>(#[allow(dead_code)] Tok);
struct TokPlugin(Ledger, u64, u64, u64);
impl Plugin<N> for TokPlugin {
    fn install(self, s: Schema<N>) -> Schema<N> {
        let t = self.0.tok(self.1);
        let held = self.0.tok(self.3);
        let _also = self.0.tok(self.2);
        s.with_trigger(AfterSave, move |_: Ctx<'_, N>, _: Res<TR<0>>| {
            let _keep = &t;
            Ok(())
        })
        .with_resource(TR::<2>(held))
    }
}

pub fn tokens(c: &mut Case) -> R {
    let mut r = c.rng();
    let led = Ledger::default();
    let mut s = Some(Schema::<N>::from(Graph::default()));
    let mut id = 0u64;
    let mut cur: [Option<u64>; 3] = [None; 3];
    let mut old: Vec<u64> = vec![];
    let mut trig: Vec<u64> = vec![];
    enum Hd {
        A(Res<TR<0>>),
        B(Res<TR<1>>),
    }
    let mut held: Vec<(u64, Hd)> = vec![];
    let mut log = vec![];
    crate::node::reset_live();
    for i in 0..8 + r.below(25) {
        id += 1;
        match r.below(8) {
            7 => {
                // Registered again while the former value is being read, or after a panic under
                // write access to it.
                let k = r.below(2);
                let how = r.below(3);
                let t = led.tok(id);
                let former = cur[k].replace(id);
                old.extend(former);
                log.push(format!("register TR<{k}> token {id} over token {former:?}, {}", ["being read", "after a panic while it was written", "used in between"][how]));
                c.count("resources_replaced_in_use", former.is_some() as u64);
                let sch = s.take().unwrap();
                fn go<const I: usize>(sch: Schema<N>, t: Tok, how: usize, former: Option<u64>, id: u64) -> Result<Schema<N>, String> {
                    let h = Res::<TR<I>>::from(sch.resources());
                    let show = |r: &Res<TR<I>>| r.with(|x| x.0 .1);
                    let sch = match how {
                        0 => {
                            let (g, g2) = (ReadOnly::read(&h), ReadOnly::read(&h));
                            let sch = sch.with_resource(TR::<I>(t));
                            let seen = (g.try_deref().map(|x| x.0 .1), g2.try_deref().map(|x| x.0 .1));
                            if seen != (former, former) && !(former.is_some() && seen == (None, None)) {
                                return Err(format!("the value being read turned from token {former:?} into {seen:?}"));
                            }
                            sch
                        }
                        1 => {
                            let _ = catch_unwind(AssertUnwindSafe(|| h.with_mut(|_| resume_unwind(Box::new(())))));
                            sch.with_resource(TR::<I>(t))
                        }
                        _ => {
                            h.with(|_| ());
                            h.with_mut(|_| ());
                            sch.with_resource(TR::<I>(t))
                        }
                    };
                    let seen = show(&Res::from(sch.resources()));
                    if seen != Some(id) {
                        return Err(format!("after registering token {id} a handle gives token {seen:?}"));
                    }
                    Ok(sch)
                }
                let r = if k == 0 { go::<0>(sch, t, how, former, id) } else { go::<1>(sch, t, how, former, id) };
                s = Some(r.map_err(|m| Violation::new(m, log.join("\n")))?);
            }
            0 | 1 => {
                let k = r.below(2);
                let t = led.tok(id);
                if let Some(o) = cur[k].replace(id) {
                    old.push(o);
                    c.count("resources_replaced", 1);
                }
                log.push(format!("register TR<{k}> token {id}"));
                s = s.take().map(|s| if k == 0 { s.with_resource(TR::<0>(t)) } else { s.with_resource(TR::<1>(t)) });
            }
            2 => {
                let t = led.tok(id);
                trig.push(id);
                log.push(format!("trigger holding token {id}"));
                s = s.take().map(|s| match id % 3 {
                    0 => s.with_trigger(BeforeSave, move |_: Ctx<'_, N>| { let _k = &t; Ok(()) }),
                    1 => s.with_trigger(BeforeSave, move |_: Ctx<'_, N>, _: Target<N>, _: Res<TR<1>>| { let _k = &t; Ok(()) }),
                    _ => s.with_trigger(AfterSave, move |_: Ctx<'_, N>, a: Res<TR<0>>| {
                        let _k = &t;
                        if a.exists() { Ok(()) } else { Err(Error::Noop) }
                    }),
                });
            }
            3 => {
                let (a, b, d) = (id, id + 1, id + 2);
                id += 2;
                log.push(format!("plugin tokens trigger {a}, itself {b}, resource {d}"));
                let p = TokPlugin(led.clone(), a, b, d);
                s = s.take().map(|s| s.install(p));
                trig.push(a);
                if let Some(o) = cur[2].replace(d) {
                    old.push(o);
                }
                if led.alive(b) != 0 {
                    return Err(Violation::new("a plugin's own value is kept after installing", log.join("\n")));
                }
            }
            4 => {
                let set = s.as_ref().unwrap().resources();
                let k = r.below(2);
                if let Some(t) = cur[k] {
                    log.push(format!("handle of TR<{k}> token {t}"));
                    held.push((t, if k == 0 { Hd::A(set.into()) } else { Hd::B(set.into()) }));
                }
            }
            5 if !held.is_empty() => {
                let i = r.below(held.len());
                let (t, h) = held.swap_remove(i);
                log.push(format!("drop handle of token {t}"));
                match h {
                    Hd::A(h) => drop(h),
                    Hd::B(h) => drop(h),
                }
            }
            _ => {
                let sch = s.as_ref().unwrap();
                let boom = r.below(3);
                let _ = catch_unwind(AssertUnwindSafe(|| {
                    sch.transaction().with(|ctx| {
                        Save::new(Node::new(i % 4, 0, i as u64, 0, 3)).execute(ctx.transaction())?;
                        if boom == 0 {
                            resume_unwind(Box::new(()));
                        }
                        Ok(())
                    })
                }));
                c.count("transactions", 1);
            }
        }
        for t in cur.iter().flatten().chain(trig.iter()) {
            if led.alive(*t) != 1 {
                return Err(Violation::new(format!("the value with token {t} is registered but {} of it are alive", led.alive(*t)), log.join("\n")));
            }
        }
        for t in &old {
            if led.alive(*t) != 0 && !held.iter().any(|h| h.0 == *t) {
                return Err(Violation::new(format!("replaced resource with token {t} is alive although no handle refers to it"), log.join("\n")));
            }
        }
        c.count("release_checks", 1);
    }
    drop(s);
    if crate::node::live() != 0 {
        return Err(Violation::new(format!("{} node values alive after the schema was dropped", crate::node::live()), log.join("\n")));
    }
    for t in &trig {
        if led.alive(*t) != 0 {
            return Err(Violation::new(format!("trigger with token {t} is alive after the schema was dropped"), log.join("\n")));
        }
    }
    drop(held);
    let left: Vec<(u64, i64)> = led.0.borrow().iter().filter(|x| *x.1 != 0).map(|x| (*x.0, *x.1)).collect();
    if !left.is_empty() {
        return Err(Violation::new(format!("tokens (token, count) {left:?} alive after the schema and all handles were dropped"), log.join("\n")));
    }
    c.count("schema_drops", 1);
    c.mixh(id * 100 + log.len() as u64);
    c.mixh(c.seed);
    c.nontrivial = true;
    Ok(())
}

// ------------------------------------------------------------------ C22

/// An accessor that records how many read and write guards of it are outstanding.
struct Acc {
    val: RwLock<u64>,
    present: Cell<bool>,
    readers: Cell<i64>,
    writers: Cell<i64>,
    acquired: Cell<u64>,
    panic_on_access: Cell<bool>,
}
struct RG<'a>(Option<RwLockReadGuard<'a, u64>>, &'a Acc);
struct WG<'a>(Option<RwLockWriteGuard<'a, u64>>, &'a Acc);
impl Drop for RG<'_> {
    fn drop(&mut self) {
        self.1.readers.set(self.1.readers.get() - 1);
    }
}
impl Drop for WG<'_> {
    fn drop(&mut self) {
        self.1.writers.set(self.1.writers.get() - 1);
    }
}
impl TryDeref for RG<'_> {
    type Target = u64;
    fn try_deref(&self) -> Option<&u64> {
        self.0.as_deref()
    }
}
impl TryDeref for WG<'_> {
    type Target = u64;
    fn try_deref(&self) -> Option<&u64> {
        self.0.as_deref()
    }
}
impl TryDerefMut for WG<'_> {
    fn try_deref_mut(&mut self) -> Option<&mut u64> {
        self.0.as_deref_mut()
    }
}
impl ReadOnly for Acc {
    type Target = u64;
    type Guard<'a> = RG<'a>;
    fn read(&self) -> RG<'_> {
        if self.panic_on_access.get() {
            resume_unwind(Box::new(()));
        }
        self.readers.set(self.readers.get() + 1);
        self.acquired.set(self.acquired.get() + 1);
        RG(self.present.get().then(|| self.val.read().unwrap_or_else(|e| e.into_inner())), self)
    }
}
impl ReadWrite for Acc {
    type Target = u64;
    type Guard<'a> = WG<'a>;
    fn write(&self) -> WG<'_> {
        if self.panic_on_access.get() {
            resume_unwind(Box::new(()));
        }
        self.writers.set(self.writers.get() + 1);
        self.acquired.set(self.acquired.get() + 1);
        WG(self.present.get().then(|| self.val.write().unwrap_or_else(|e| e.into_inner())), self)
    }
}
impl Acc {
    fn new(v: u64) -> Rc<Self> {
        Rc::new(Acc {
            val: RwLock::new(v),
            present: Cell::new(true),
            readers: Cell::new(0),
            writers: Cell::new(0),
            acquired: Cell::new(0),
            panic_on_access: Cell::new(false),
        })
    }
}
/// A shared reference to an accessor, as a tuple component.
struct Ar(Rc<Acc>);
impl ReadOnly for Ar {
    type Target = u64;
    type Guard<'a> = RG<'a>;
    fn read(&self) -> RG<'_> {
        self.0.read()
    }
}
impl ReadWrite for Ar {
    type Target = u64;
    type Guard<'a> = WG<'a>;
    fn write(&self) -> WG<'_> {
        self.0.write()
    }
}

/// What a scoped call did: values seen per call of the closure, and what it returned.
struct Did {
    seen: Vec<Vec<u64>>,
    ret: Result<Option<u64>, ()>,
}

fn call(accs: &[Rc<Acc>], write: bool, new: &[u64], panic: bool, tag: u64) -> Did {
    let seen = RefCell::new(vec![]);
    let held_ok = || {
        // Inside the closure every component is accessed, in the requested mode.
        accs.iter().all(|a| if write { a.writers.get() == 1 && a.readers.get() == 0 } else { a.readers.get() == 1 && a.writers.get() == 0 })
    };
    let body = |vals: Vec<u64>| -> u64 {
        let mut v = vals;
        if !held_ok() {
            v.push(u64::MAX);
        }
        seen.borrow_mut().push(v);
        if panic {
            resume_unwind(Box::new(()));
        }
        tag
    };
    macro_rules! tup {
        ($($i:tt $x:ident),*) => {{
            let t = ($(Ar(accs[$i].clone()),)*);
            if write {
                t.with_mut(|($($x,)*)| {
                    let old = vec![$(*$x),*];
                    $(*$x = new[$i];)*
                    body(old)
                })
            } else {
                t.with(|($($x,)*)| body(vec![$(*$x),*]))
            }
        }};
    }
    let ret = catch_unwind(AssertUnwindSafe(|| match accs.len() {
        1 => {
            let t = Ar(accs[0].clone());
            if write {
                t.with_mut(|a| {
                    let old = vec![*a];
                    *a = new[0];
                    body(old)
                })
            } else {
                t.with(|a| body(vec![*a]))
            }
        }
        2 => tup!(0 a, 1 b),
        3 => tup!(0 a, 1 b, 2 c),
        4 => tup!(0 a, 1 b, 2 c, 3 d),
        5 => tup!(0 a, 1 b, 2 c, 3 d, 4 e),
        _ => tup!(0 a, 1 b, 2 c, 3 d, 4 e, 5 f),
    }))
    .map_err(|_| ());
    Did { seen: seen.into_inner(), ret }
}

fn c22_accessors(c: &mut Case) -> R {
    let mut r = c.rng();
    let accs: Vec<Rc<Acc>> = (0..6).map(|i| Acc::new(i)).collect();
    let mut model: Vec<u64> = (0..6).collect();
    let mut next = 100;
    let mut log = vec![];
    for _ in 0..10 + r.below(30) {
        let n = 1 + r.below(6);
        let mut idx: Vec<usize> = (0..6).collect();
        r.shuffle(&mut idx);
        idx.truncate(n);
        for a in &accs {
            a.present.set(true);
            a.panic_on_access.set(false);
        }
        let mask = if r.chance(45) { r.below(1 << n) } else { 0 };
        for (p, i) in idx.iter().enumerate() {
            if mask >> p & 1 == 1 {
                accs[*i].present.set(false);
            }
        }
        let boom_at = r.chance(8).then(|| r.below(n));
        if let Some(b) = boom_at {
            accs[idx[b]].panic_on_access.set(true);
        }
        let (write, panic) = (r.chance(50), r.chance(20));
        let sel: Vec<Rc<Acc>> = idx.iter().map(|i| accs[*i].clone()).collect();
        let new: Vec<u64> = idx.iter().map(|_| { next += 1; next }).collect();
        let tag = next * 7 + 1;
        let d = call(&sel, write, &new, panic, tag);
        let all = mask == 0 && boom_at.is_none();
        log.push(format!("{} of {idx:?} missing={mask:b} access_panics={boom_at:?} closure_panics={panic} -> seen {:?} ret {:?}", if write { "with_mut" } else { "with" }, d.seen, d.ret));
        let bad = |m: String| Err(Violation::new(m, log.join("\n")));
        c.count(if write { "scoped_writes" } else { "scoped_reads" }, 1);
        c.count("calls_with_something_missing", (mask != 0) as u64);
        c.count("closure_panics", (panic && all) as u64);
        c.count("access_panics", boom_at.is_some() as u64);
        c.max("max_arity", n as u64);
        let want: Vec<u64> = idx.iter().map(|i| model[*i]).collect();
        if all {
            if d.seen.len() != 1 {
                return bad(format!("every component was available and the closure ran {} times", d.seen.len()));
            }
            if d.seen[0] != want {
                return bad(format!("the closure saw {:?}, the components are {want:?}", d.seen[0]));
            }
            let wret = if panic { Err(()) } else { Ok(Some(tag)) };
            if d.ret != wret {
                return bad(format!("the call gave {:?}, expected {wret:?}", d.ret));
            }
            if write {
                for (i, v) in idx.iter().zip(&new) {
                    model[*i] = *v;
                }
            }
        } else {
            if !d.seen.is_empty() {
                return bad("a component was missing and the closure ran".into());
            }
            if boom_at.is_none() && d.ret != Ok(None) {
                return bad(format!("a component was missing and the call gave {:?}", d.ret));
            }
        }
        for (i, a) in accs.iter().enumerate() {
            if a.readers.get() != 0 || a.writers.get() != 0 {
                return bad(format!("after the call component {i} is still accessed: {} readers, {} writers", a.readers.get(), a.writers.get()));
            }
            if a.val.try_write().is_err_and(|e| matches!(e, std::sync::TryLockError::WouldBlock)) {
                return bad(format!("after the call component {i} stays blocked"));
            }
            let v = *a.val.read().unwrap_or_else(|e| e.into_inner());
            if v != model[i] {
                return bad(format!("component {i} is {v} after the call, expected {}", model[i]));
            }
        }
        c.mixh(mask as u64 ^ (n as u64) << 8 ^ (write as u64) << 20 ^ (panic as u64) << 21);
    }
    for i in idx_iter(&model) {
        c.mixh(i);
    }
    Ok(())
}
fn idx_iter(v: &[u64]) -> Vec<u64> {
    v.to_vec()
}

/// Tuples of resources and targets of a schema, some of them unregistered.
fn c22_schema(c: &mut Case) -> R {
    let mut r = c.rng();
    let mask = r.below(16);
    let has = |i: usize| mask >> i & 1 == 0;
    let mut s = Schema::<N>::from(Graph::default());
    let mut m = [10u64, 20, 30, 40];
    if has(0) {
        s = s.with_resource(P::<0>(m[0]));
    }
    if has(1) {
        s = s.with_resource(P::<1>(m[1]));
    }
    if has(2) {
        s = s.with_resource(P::<2>(m[2]));
    }
    let mut log = vec![format!("missing={mask:04b}")];
    for step in 0..6 {
        let mut out: R = Ok(());
        let panic = r.chance(10);
        let (shape, write) = (r.below(4), r.chance(50));
        let set = s.resources();
        let nv = 100 + step * 10;
        let res = s.transaction().with(|ctx| {
            let ctx = if has(3) { ctx.with_target(Node::new(1, 0, 0, m[3], 3)) } else { ctx };
            let (a, b, d): (Res<P<0>>, Res<P<1>>, Res<P<2>>) = if r.chance(50) { (set.into(), set.into(), set.into()) } else { ((&ctx).into(), (&ctx).into(), (&ctx).into()) };
            let t: Target<N> = (&ctx).into();
            let mut seen: Vec<u64> = vec![];
            let (want_idx, ret): (Vec<usize>, Result<Option<u64>, ()>) = {
                let seen = &mut seen;
                let boom = |v: Vec<u64>, seen: &mut Vec<u64>| {
                    *seen = v;
                    if panic && !write {
                        resume_unwind(Box::new(()));
                    }
                    5u64
                };
                match shape {
                    0 => (vec![0, 1], catch_unwind(AssertUnwindSafe(|| {
                        let tup = (a, b);
                        if write { tup.with_mut(|(x, y)| { let o = vec![x.0, y.0]; x.0 = nv; y.0 = nv + 1; boom(o, seen) }) } else { tup.with(|(x, y)| boom(vec![x.0, y.0], seen)) }
                    }))),
                    1 => (vec![3, 2], catch_unwind(AssertUnwindSafe(|| {
                        let tup = (t, d);
                        if write { tup.with_mut(|(x, y)| { let o = vec![x.rev, y.0]; x.rev = nv; y.0 = nv + 1; boom(o, seen) }) } else { tup.with(|(x, y)| boom(vec![x.rev, y.0], seen)) }
                    }))),
                    2 => (vec![2, 0, 1], catch_unwind(AssertUnwindSafe(|| {
                        let tup = (d, a, b);
                        if write { tup.with_mut(|(x, y, z)| { let o = vec![x.0, y.0, z.0]; x.0 = nv; y.0 = nv + 1; z.0 = nv + 2; boom(o, seen) }) } else { tup.with(|(x, y, z)| boom(vec![x.0, y.0, z.0], seen)) }
                    }))),
                    _ => (vec![0, 3, 1, 2], catch_unwind(AssertUnwindSafe(|| {
                        let tup = (a, t, b, d);
                        if write { tup.with_mut(|(x, y, z, w)| { let o = vec![x.0, y.rev, z.0, w.0]; x.0 = nv; y.rev = nv + 1; z.0 = nv + 2; w.0 = nv + 3; boom(o, seen) }) } else { tup.with(|(x, y, z, w)| boom(vec![x.0, y.rev, z.0, w.0], seen)) }
                    }))),
                }
            }
            .into_parts();
            let all = want_idx.iter().all(|i| has(*i));
            let want: Vec<u64> = if all { want_idx.iter().map(|i| m[*i]).collect() } else { vec![] };
            log.push(format!("components {want_idx:?} write={write} panic={panic}: saw {seen:?} ret {ret:?}"));
            let wret = if !all { Ok(None) } else if panic && !write { Err(()) } else { Ok(Some(5)) };
            if seen != want || ret != wret {
                out = Err(Violation::new(format!("scoped access to {want_idx:?} saw {seen:?} and gave {ret:?}; expected {want:?} and {wret:?}"), log.join("\n")));
                return Ok(());
            }
            if all && write {
                for (p, i) in want_idx.iter().enumerate() {
                    if *i != 3 {
                        m[*i] = nv + p as u64;
                    }
                }
                let tv = want_idx.iter().position(|i| *i == 3);
                let now = ctx.target().with(|n| n.rev);
                if let Some(p) = tv {
                    if now != Some(nv + p as u64) {
                        out = Err(Violation::new(format!("the target holds {now:?} after a scoped write of {}", nv + p as u64), log.join("\n")));
                    }
                }
            }
            c.count("schema_tuples", 1);
            Ok(())
        });
        out?;
        if res.is_err() {
            return Err(Violation::new("transaction failed", log.join("\n")));
        }
        // None of the values may stay blocked: take write access to each (the watchdog sees a hang).
        let set = s.resources();
        let now = [Res::<P<0>>::from(set).with_mut(|x| x.0), Res::<P<1>>::from(set).with_mut(|x| x.0), Res::<P<2>>::from(set).with_mut(|x| x.0)];
        for i in 0..3 {
            if now[i] != has(i).then_some(m[i]) {
                return Err(Violation::new(format!("resource {i} is {:?} after the calls, expected {:?}", now[i], has(i).then_some(m[i])), log.join("\n")));
            }
        }
        c.mixh(shape as u64 ^ (mask as u64) << 8 ^ (write as u64) << 16 ^ step << 24);
    }
    Ok(())
}
trait Parts {
    type A;
    type B;
    fn into_parts(self) -> (Self::A, Self::B);
}
impl<A, E> Parts for (A, Result<Option<u64>, E>) {
    type A = A;
    type B = Result<Option<u64>, ()>;
    fn into_parts(self) -> (A, Self::B) {
        (self.0, self.1.map_err(|_| ()))
    }
}

/// Threads: writers keep the components of a tuple equal, readers must see them equal.
struct Shared(Arc<RwLock<u64>>);
struct SR<'a>(RwLockReadGuard<'a, u64>);
struct SW<'a>(RwLockWriteGuard<'a, u64>);
impl TryDeref for SR<'_> {
    type Target = u64;
    fn try_deref(&self) -> Option<&u64> {
        Some(&self.0)
    }
}
impl TryDeref for SW<'_> {
    type Target = u64;
    fn try_deref(&self) -> Option<&u64> {
        Some(&self.0)
    }
}
impl TryDerefMut for SW<'_> {
    fn try_deref_mut(&mut self) -> Option<&mut u64> {
        Some(&mut self.0)
    }
}
impl ReadOnly for Shared {
    type Target = u64;
    type Guard<'a> = SR<'a>;
    fn read(&self) -> SR<'_> {
        let g = SR(self.0.read().unwrap());
        std::thread::yield_now();
        g
    }
}
impl ReadWrite for Shared {
    type Target = u64;
    type Guard<'a> = SW<'a>;
    fn write(&self) -> SW<'_> {
        let g = SW(self.0.write().unwrap());
        std::thread::yield_now();
        g
    }
}

pub fn c22_threads(c: &mut Case, threads: usize, per: usize) -> R {
    let cells: Vec<Arc<RwLock<u64>>> = (0..3).map(|_| Arc::new(RwLock::new(0))).collect();
    let tup = (Shared(cells[0].clone()), Shared(cells[1].clone()), Shared(cells[2].clone()));
    let bar = Barrier::new(threads);
    let tok = c.thread_token();
    let bad: Vec<String> = std::thread::scope(|s| {
        let hs: Vec<_> = (0..threads)
            .map(|t| {
                let (tup, bar, tok) = (&tup, &bar, tok.clone());
                s.spawn(move || {
                    tok.enter();
                    bar.wait();
                    let mut bad = vec![];
                    for _ in 0..per {
                        if t % 2 == 0 {
                            tup.with_mut(|(a, b, c)| {
                                *a += 1;
                                std::thread::yield_now();
                                *b += 1;
                                *c += 1;
                            });
                        } else {
                            let v = tup.with(|(a, b, c)| (*a, *b, *c));
                            if v.is_none_or(|v| v.0 != v.1 || v.1 != v.2) {
                                bad.push(format!("{v:?}"));
                            }
                        }
                    }
                    bad
                })
            })
            .collect();
        hs.into_iter().flat_map(|h| h.join().unwrap()).collect()
    });
    let writers = threads.div_ceil(2) as u64;
    let want = writers * per as u64;
    let got: Vec<u64> = cells.iter().map(|c| *c.read().unwrap()).collect();
    c.count("threaded_calls", (threads * per) as u64);
    c.mixh(c.seed);
    if !bad.is_empty() {
        return Err(Violation::new(format!("scoped reads saw components mid-write: {:?}", &bad[..bad.len().min(5)]), String::new()));
    }
    if got.iter().any(|g| *g != want) {
        return Err(Violation::new(format!("{want} scoped increments left {got:?}"), String::new()));
    }
    Ok(())
}

pub fn c22(c: &mut Case) -> R {
    c.nontrivial = true;
    match (c.seed >> 5) % 10 {
        0..=5 => c22_accessors(c),
        6..=8 => c22_schema(c),
        _ => c22_threads(c, 4, 20),
    }
}
