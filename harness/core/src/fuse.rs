//! C23, C19: code of the program's own that panics, or lies, at any moment it is called: comparing,
//! copying and naming ids, copying nodes, reading edges, building parameters, triggers, repositories.
//! What is left afterwards may be anything, but nothing is released twice or used after release.

use std::cell::Cell;
use std::cmp::Ordering;
use std::panic::{catch_unwind, resume_unwind, AssertUnwindSafe};
use std::rc::Rc;
use std::sync::Arc;

use plotline::deref::{TryDeref, With, WithMut};
use plotline::document::lazy::LazyDocument;
use plotline::document::DocumentRepository;
use plotline::graph::{Graph, Source};
use plotline::id::Identify;
use plotline::property::Property;
use plotline::schema::ops::delete::{AfterDelete, BeforeDelete, Delete};
use plotline::schema::ops::save::{AfterSave, BeforeSave, Save};
use plotline::schema::resource::Res;
use plotline::schema::transaction::{Context, Ctx, Target, Transaction};
use plotline::schema::{Error, Schema};
use vcommon::{Case, Rng, Violation};

thread_local! {
    /// Calls until the fuse blows; negative: never.
    static FUSE: Cell<i64> = const { Cell::new(-1) };
    static BLOWN: Cell<u64> = const { Cell::new(0) };
    static CALLS: Cell<u64> = const { Cell::new(0) };
    /// Comparisons give any answer.
    static LIES: Cell<u64> = const { Cell::new(0) };
    static LIVE: Cell<i64> = const { Cell::new(0) };
    /// The least number ever alive, and bodies found damaged.
    static LEAST: Cell<i64> = const { Cell::new(0) };
    static DAMAGED: Cell<u64> = const { Cell::new(0) };
}

fn hit() {
    CALLS.set(CALLS.get() + 1);
    let n = FUSE.get();
    if n < 0 || std::thread::panicking() {
        return;
    }
    FUSE.set(n - 1);
    if n == 0 {
        BLOWN.set(BLOWN.get() + 1);
        resume_unwind(Box::new(()));
    }
}

const MAGIC: u64 = 0x5EED_F00D_CAFE_D00D;

/// Owns memory, and counts itself.
#[derive(Debug)]
struct Tok(Box<[u64; 3]>);
impl Tok {
    fn new(v: u64) -> Self {
        LIVE.set(LIVE.get() + 1);
        Tok(Box::new([MAGIC, v, MAGIC ^ v]))
    }
    fn check(&self) {
        if self.0[0] != MAGIC || self.0[2] != MAGIC ^ self.0[1] {
            DAMAGED.set(DAMAGED.get() + 1);
        }
    }
}
impl Clone for Tok {
    fn clone(&self) -> Self {
        self.check();
        Tok::new(self.0[1])
    }
}
impl Drop for Tok {
    fn drop(&mut self) {
        self.check();
        self.0[0] = 0;
        LIVE.set(LIVE.get() - 1);
        LEAST.set(LEAST.get().min(LIVE.get()));
    }
}

#[derive(Debug)]
pub struct I(Rc<u64>, Tok);
impl I {
    fn new(i: usize) -> Self {
        I(Rc::new(i as u64), Tok::new(i as u64))
    }
}
impl Clone for I {
    fn clone(&self) -> Self {
        hit();
        I(self.0.clone(), self.1.clone())
    }
}
impl PartialEq for I {
    fn eq(&self, o: &I) -> bool {
        self.cmp(o) == Ordering::Equal
    }
}
impl Eq for I {}
impl PartialOrd for I {
    fn partial_cmp(&self, o: &I) -> Option<Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for I {
    fn cmp(&self, o: &I) -> Ordering {
        hit();
        self.1.check();
        o.1.check();
        let l = LIES.get();
        if l != 0 {
            let l = vcommon::mix(l) | 1;
            LIES.set(l);
            if l >> 8 & 3 == 0 {
                return [Ordering::Less, Ordering::Equal, Ordering::Greater][(l >> 16) as usize % 3];
            }
        }
        self.0.cmp(&o.0)
    }
}

#[derive(Debug)]
pub struct M {
    id: I,
    body: Tok,
}
impl M {
    fn new(i: usize, v: u64) -> Self {
        M { id: I::new(i), body: Tok::new(v) }
    }
    fn check(&self) {
        self.id.1.check();
        self.body.check();
    }
}
impl Clone for M {
    fn clone(&self) -> Self {
        let id = self.id.clone();
        hit();
        M { id, body: self.body.clone() }
    }
}
impl Identify for M {
    type Id = I;
    fn id(&self) -> &I {
        hit();
        &self.id
    }
}
struct E(I);
impl Identify for E {
    type Id = I;
    fn id(&self) -> &I {
        hit();
        &self.0
    }
}
impl Property<M> for E {
    fn all(m: &M) -> Vec<E> {
        hit();
        m.check();
        (0..m.body.0[1] % 4).map(|j| E(I::new((m.body.0[1] / 4 + j) as usize % 7))).collect()
    }
}

/// A parameter whose making may fail.
struct P(#[allow(dead_code)] Tok);
impl From<&Context<'_, M>> for P {
    fn from(_: &Context<'_, M>) -> Self {
        let t = Tok::new(1);
        hit();
        P(t)
    }
}

struct Held(Tok);

struct Repo;
impl DocumentRepository for Repo {
    type Document = M;
    fn find_by_id(&self, id: &I) -> Option<M> {
        hit();
        let i = *id.0 as usize;
        (i % 5 != 4).then(|| M::new(i, i as u64))
    }
}

fn schema(r: &mut Rng, n: usize) -> Schema<M> {
    let mut g = Graph::default();
    for i in 0..n {
        g.insert(M::new(i, r.u64() >> 20));
    }
    let mut s = Schema::from(g).with_resource(Held(Tok::new(7)));
    for _ in 0..r.below(4) {
        let kept = Tok::new(9);
        let what = r.below(4);
        let k = r.below(7);
        let body = move |ctx: &Ctx<'_, M>, t: &Target<M>| -> plotline::schema::Result<()> {
            kept.check();
            hit();
            t.with(|m| m.check());
            match what {
                0 => t.with_mut(|m| {
                    m.body = Tok::new(m.body.0[1] + 1);
                    hit();
                }),
                1 => ctx.transaction().with(|c| {
                    c.save(M::new(k, 3));
                    hit();
                    c.get(&I::new(k)).iter().for_each(M::check);
                    Ok(())
                }).ok(),
                2 => ctx.transaction().with(|c| { c.delete(I::new(k)); Err::<(), _>(Error::Noop) }).ok(),
                _ => None,
            };
            Ok(())
        };
        s = match r.below(4) {
            0 => s.with_trigger(BeforeSave, move |c: Ctx<'_, M>, t: Target<M>, _: P| body(&c, &t)),
            1 => s.with_trigger(AfterSave, move |c: Ctx<'_, M>, _: P, t: Target<M>, h: Res<Held>| { h.with_mut(|h| { h.0 = Tok::new(2); hit() }); body(&c, &t) }),
            2 => s.with_trigger(BeforeDelete, move |c: Ctx<'_, M>, t: Target<M>| body(&c, &t)),
            _ => s.with_trigger(AfterDelete, move |c: Ctx<'_, M>, _: P, _: P, t: Target<M>| body(&c, &t)),
        };
    }
    s
}

fn act(r: &mut Rng, ctx: &Context<'_, M>, depth: usize) -> plotline::schema::Result<()> {
    for _ in 0..1 + r.below(6) {
        let k = r.below(7);
        match r.below(if depth < 3 { 10 } else { 7 }) {
            0..=2 => ctx.save(M::new(k, r.u64() >> 20)),
            3 => ctx.delete(I::new(k)),
            4 => ctx.get(&I::new(k)).iter().for_each(M::check),
            5 => {
                let _ = ctx.contains(&I::new(k));
            }
            6 => {
                let p = ctx.node(I::new(k));
                p.try_deref().iter().for_each(|m| m.check());
                let q = p.clone();
                for s in q.successors::<E>() {
                    s.try_deref().iter().for_each(|m| m.check());
                    let _ = s.successors::<E>().len();
                }
            }
            7 => {
                let _ = Save::new(M::new(k, 5)).execute(ctx.transaction());
            }
            8 => {
                let _ = Delete::<M>::new(I::new(k)).execute(ctx.transaction());
            }
            _ => {
                let keep = r.chance(70);
                let inner = catch_unwind(AssertUnwindSafe(|| {
                    ctx.transaction().with(|c| {
                        act(r, &c, depth + 1)?;
                        if keep { Ok(()) } else { Err(Error::Noop) }
                    })
                }));
                if let Err(p) = inner {
                    if r.chance(40) {
                        resume_unwind(p);
                    }
                }
            }
        }
    }
    Ok(())
}

pub fn fuse(c: &mut Case) -> Result<(), Violation> {
    let mut r = c.rng();
    FUSE.set(-1);
    BLOWN.set(0);
    CALLS.set(0);
    LIES.set(0);
    LIVE.set(0);
    LEAST.set(0);
    DAMAGED.set(0);
    let n = *r.pick(&[0, 1, 2, 4, 6, 13, 30]);
    let s = schema(&mut r, n);
    let lies = r.chance(25);
    let mut log = vec![];
    for _ in 0..2 + r.below(8) {
        FUSE.set(if r.chance(80) { r.below(*r.clone().pick(&[4, 15, 60])) as i64 } else { -1 });
        LIES.set(if lies && r.chance(60) { r.u64() | 1 } else { 0 });
        let k = r.below(7);
        let what = r.below(9);
        log.push(format!("{what} on {k}, fuse {}, lies {}", FUSE.get(), LIES.get() != 0));
        let res = catch_unwind(AssertUnwindSafe(|| match what {
            0..=3 => {
                let ok = r.chance(80);
                let _ = s.transaction().with(|ctx| {
                    act(&mut r, &ctx, 0)?;
                    // The fuse may be set for the commit alone.
                    if r.chance(50) {
                        FUSE.set(r.below(12) as i64);
                    }
                    if ok { Ok(()) } else { Err(Error::Noop) }
                });
            }
            4 => drop(Save::new(M::new(k, 1)).execute(s.transaction())),
            5 => drop(Delete::<M>::new(I::new(k)).execute(s.transaction())),
            6 => {
                let mut w = s.write();
                for _ in 0..1 + r.below(5) {
                    let k = r.below(7);
                    if r.chance(60) {
                        drop(w.insert(M::new(k, 2)));
                    } else {
                        drop(w.remove(&I::new(k)));
                    }
                }
            }
            7 => {
                let g = s.read();
                g.get(&I::new(k)).iter().for_each(|m| m.check());
                let p = g.node(I::new(k));
                for s in p.successors::<E>() {
                    s.try_deref().iter().for_each(|m| m.check());
                }
                (&*g).into_iter().for_each(M::check);
            }
            _ => {
                let of = LazyDocument::builder(Arc::new(Repo));
                let a = of(I::new(k));
                let _ = catch_unwind(AssertUnwindSafe(|| a.try_deref().iter().for_each(|m| m.check())));
                let b = a.clone();
                b.try_deref().iter().for_each(|m| m.check());
                a.try_deref().iter().for_each(|m| m.check());
                let d = LazyDocument::new(Arc::new(Repo), M::new(k, 2));
                d.clone().try_deref().iter().for_each(|m| m.check());
            }
        }));
        FUSE.set(-1);
        c.count("disturbed_steps", res.is_err() as u64);
        c.count("fuse_steps", 1);
        // Whatever is left can be read.
        (&*s.read()).into_iter().for_each(M::check);
    }
    LIES.set(0);
    drop(s);
    c.count("calls_of_foreign_code", CALLS.get());
    c.count("fuses_blown", BLOWN.get());
    c.mixh(c.seed);
    c.nontrivial = BLOWN.get() > 0;
    if LEAST.get() < 0 || DAMAGED.get() > 0 {
        return Err(Violation::new(format!("with id code that panics{}: {} values released twice, {} found damaged", if lies { " or gives inconsistent answers" } else { "" }, -LEAST.get(), DAMAGED.get()), log.join("\n")));
    }
    if LIVE.get() != 0 && BLOWN.get() == 0 {
        return Err(Violation::new(format!("{} values alive after everything was dropped", LIVE.get()), log.join("\n")));
    }
    Ok(())
}

/// What a graph may hold: for each id, the values (or absences) it may have.
type Model = std::collections::BTreeMap<usize, Vec<Option<u64>>>;

struct Ordeal<'a> {
    r: &'a mut Rng,
    next: u64,
    wrong: Option<String>,
    log: Vec<String>,
    checks: u64,
    caught: u64,
}

fn value(m: &M) -> u64 {
    m.check();
    m.body.0[1]
}

impl Ordeal<'_> {
    fn note(&mut self, depth: usize, s: String) {
        self.log.push(format!("{}{s}", "  ".repeat(depth)));
    }
    /// A read gave this value: it is one of those possible, and from now on the only one.
    fn saw(&mut self, model: &mut Model, k: usize, got: Option<u64>, how: &str) {
        self.checks += 1;
        let may = model.entry(k).or_insert_with(|| vec![None]);
        if !may.contains(&got) {
            self.wrong.get_or_insert(format!("{how} of {k} gave {got:?}, expected one of {may:?}"));
        }
        *may = vec![got];
    }
    fn present(&mut self, model: &mut Model, k: usize, got: bool, how: &str) {
        self.checks += 1;
        let may = model.entry(k).or_insert_with(|| vec![None]);
        if !may.iter().any(|v| v.is_some() == got) {
            self.wrong.get_or_insert(format!("{how} of {k} gave {got}, expected one of {may:?}"));
        }
        may.retain(|v| v.is_some() == got);
    }
    fn arm(&mut self, odds: usize) -> bool {
        if self.r.below(100) < odds {
            FUSE.set(self.r.below(*self.r.clone().pick(&[2, 5, 14])) as i64);
            true
        } else {
            false
        }
    }

    /// Operations in this context. The state returned is the one it leaves behind if it completes.
    fn body(&mut self, ctx: &Context<'_, M>, mut model: Model, depth: usize) -> Model {
        for _ in 0..1 + self.r.below(7) {
            if self.wrong.is_some() {
                break;
            }
            let k = self.r.below(7);
            // While the enclosing body has a fuse of its own, what happens inside is not watched.
            let own = FUSE.get() < 0;
            let armed = own && self.arm(45);
            let fuse = FUSE.get();
            let what = self.r.below(if depth < 3 { 12 } else { 8 });
            self.note(depth, format!("{what} on {k}{}", if armed { format!(", fuse {fuse}") } else { String::new() }));
            let before = model.clone();
            let res = if own {
                catch_unwind(AssertUnwindSafe(|| self.one(ctx, &mut model, what, k, depth)))
            } else {
                Ok(self.one(ctx, &mut model, what, k, depth))
            };
            if own {
                FUSE.set(-1);
            }
            if res.is_err() {
                self.caught += 1;
                self.note(depth, "  panicked".into());
                let tried = model.remove(&k).unwrap_or_else(|| vec![None]);
                model = before;
                if what < 4 {
                    // The operation may have been registered before it failed.
                    let may = model.entry(k).or_insert_with(|| vec![None]);
                    may.extend(tried);
                    if what < 3 {
                        may.push(Some(self.next));
                    } else {
                        may.push(None);
                    }
                }
                // Whatever was left by it is used at once.
                if self.r.chance(50) {
                    let got = ctx.get(&I::new(k)).map(|m| value(&m));
                    self.saw(&mut model, k, got, "reading after the panic");
                }
            }
        }
        model
    }

    fn one(&mut self, ctx: &Context<'_, M>, model: &mut Model, what: usize, k: usize, depth: usize) {
        match what {
            0..=2 => {
                self.next += 1;
                ctx.save(M::new(k, self.next));
                model.insert(k, vec![Some(self.next)]);
            }
            3 => {
                ctx.delete(I::new(k));
                model.insert(k, vec![None]);
            }
            4 => {
                let got = ctx.get(&I::new(k)).map(|m| value(&m));
                self.saw(model, k, got, "get");
            }
            5 => {
                let got = ctx.contains(&I::new(k));
                self.present(model, k, got, "contains");
            }
            6 => {
                let p = ctx.node(I::new(k));
                let got = p.try_deref().map(value);
                self.saw(model, k, got, "a handle");
                let q = p.clone();
                for s in q.successors::<E>() {
                    let got = s.try_deref().map(value);
                    let to = *s.id().0 as usize;
                    self.saw(model, to, got, "a successor");
                }
            }
            7 => {
                let all: Vec<usize> = (0..7).collect();
                for k in all {
                    let got = ctx.get(&I::new(k)).map(|m| value(&m));
                    self.saw(model, k, got, "get");
                }
            }
            8 => {
                self.next += 1;
                let v = self.next;
                if Save::new(M::new(k, v)).execute(ctx.transaction()).is_ok() {
                    model.insert(k, vec![Some(v)]);
                } else {
                    self.wrong.get_or_insert("saving without triggers failed".into());
                }
            }
            9 => {
                let there = Delete::<M>::new(I::new(k)).execute(ctx.transaction()).is_ok();
                self.present(model, k, there, "the success of deleting");
                model.insert(k, vec![None]);
            }
            _ => {
                let keep = self.r.chance(70);
                let start = model.clone();
                let ended = ctx.transaction().with(|c| {
                    let m = self.body(&c, start, depth + 1);
                    if keep { Ok(m) } else { Err(Error::Noop) }
                });
                match (ended, keep) {
                    (Ok(m), true) => *model = m,
                    (Err(Error::Noop), false) => {}
                    (r, _) => {
                        self.wrong.get_or_insert(format!("a nested transaction whose body gave ok={keep} gave ok={}", r.is_ok()));
                    }
                }
                self.note(depth, format!("  ended, ok={keep}"));
            }
        }
    }

    fn whole(&mut self, s: &Schema<M>, model: &mut Model, when: &str) {
        let mut seen = std::collections::BTreeMap::new();
        for m in &*s.read() {
            if seen.insert(*m.id.0 as usize, value(m)).is_some() {
                self.wrong.get_or_insert(format!("{} twice in the graph", m.id.0));
            }
        }
        for k in 0..7 {
            self.saw(model, k, seen.get(&k).copied(), when);
            if seen.get(&k).copied() != s.read().get(&I::new(k)).map(|m| value(&m)) {
                self.wrong.get_or_insert(format!("{k} read alone differs from {k} read among all"));
            }
        }
        if seen.keys().any(|k| *k >= 7) {
            self.wrong.get_or_insert("a node nobody saved".into());
        }
    }
}

/// C04: a panic of the program's own identity, ordering or clone code, anywhere inside the body of a
/// transaction, is like any other failure: caught inside, only what panicked is affected; leaving the
/// transaction, nothing of it is applied; and everything is usable afterwards.
pub fn ordeal(c: &mut Case) -> Result<(), Violation> {
    let mut r = c.rng();
    for _ in 0..if c.light { 1 } else { 6 } {
        ordeal_one(c, &mut r)?;
    }
    Ok(())
}

fn ordeal_one(c: &mut Case, r: &mut Rng) -> Result<(), Violation> {
    FUSE.set(-1);
    BLOWN.set(0);
    LIES.set(0);
    let n = *r.pick(&[0, 1, 3, 7]);
    let mut g = Graph::default();
    let mut model = Model::new();
    for i in 0..n {
        g.insert(M::new(i, 100 + i as u64));
        model.insert(i, vec![Some(100 + i as u64)]);
    }
    let s = Schema::from(g);
    let mut o = Ordeal { r, next: 200, wrong: None, log: vec![], checks: 0, caught: 0 };
    for _ in 0..1 + o.r.below(5) {
        if o.wrong.is_some() {
            break;
        }
        let end = o.r.below(10);
        let outer = o.r.chance(20);
        o.note(0, format!("transaction, ending {end}{}", if outer { ", fuse for all of it" } else { "" }));
        let start = model.clone();
        let ended = catch_unwind(AssertUnwindSafe(|| {
            s.transaction().with(|ctx| {
                if outer {
                    FUSE.set(o.r.below(40) as i64);
                }
                let m = o.body(&ctx, start, 1);
                FUSE.set(-1);
                match end {
                    0..=5 => Ok(m),
                    6 | 7 => Err(Error::Noop),
                    _ => resume_unwind(Box::new(())),
                }
            })
        }));
        FUSE.set(-1);
        o.caught += ended.is_err() as u64;
        match (ended, end) {
            (Ok(Ok(m)), 0..=5) => model = m,
            (Ok(Err(Error::Noop)), 6 | 7) => {}
            (Err(_), _) => {}
            (Ok(r), _) => {
                o.wrong.get_or_insert(format!("the transaction gave ok={} for the ending {end}", r.is_ok()));
            }
        }
        o.whole(&s, &mut model, "reading after the transaction");
        // One more, without faults.
        let k = o.r.below(7);
        o.next += 1;
        let v = o.next;
        o.note(0, format!("save {k} := {v}"));
        let ok = Save::new(M::new(k, v)).execute(s.transaction()).is_ok();
        if !ok {
            o.wrong.get_or_insert("saving after the transaction failed".into());
        }
        model.insert(k, vec![Some(v)]);
        o.whole(&s, &mut model, "reading after saving");
    }
    let (wrong, log, checks, caught) = (o.wrong.take(), std::mem::take(&mut o.log), o.checks, o.caught);
    drop(s);
    c.count("foreign_panics", BLOWN.get());
    c.count("foreign_panics_caught", caught);
    c.count("reads_checked", checks);
    c.mixh(c.seed);
    c.nontrivial |= caught > 0;
    match wrong {
        None => Ok(()),
        Some(w) => Err(Violation::new(format!("with identity, ordering and clone code that may panic: {w}"), log.join("\n"))),
    }
}
