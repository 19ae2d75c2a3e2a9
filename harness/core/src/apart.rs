//! C26 with threads: what one thread does to a schema, or waits for, leaves the schemas of other
//! threads alone.

use std::cell::{Cell, RefCell};
use std::collections::BTreeMap;
use std::panic::{catch_unwind, resume_unwind, AssertUnwindSafe};
use std::rc::Rc;
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::Barrier;

use plotline::deref::{TryDeref, With, WithMut};
use plotline::graph::{Graph, Source};
use plotline::id::Identify;
use plotline::prelude::{AfterDelete, AfterSave, Ctx, Transaction};
use plotline::schema::ops::{delete::Delete, save::Save};
use plotline::schema::resource::Res;
use plotline::schema::transaction::Target;
use plotline::schema::{Error, Schema};
use vcommon::{mix, Case, Rng, Violation};

#[derive(Clone, Debug, PartialEq)]
pub struct N {
    id: u8,
    v: u64,
}
impl Identify for N {
    type Id = u8;
    fn id(&self) -> &u8 {
        &self.id
    }
}

type S = Schema<N>;
type State = BTreeMap<u8, u64>;
type R = Result<(), Violation>;

fn whole(s: &S) -> State {
    s.read().into_iter().map(|n| (n.id, n.v)).collect()
}

struct Shared(S);
// SAFETY: the schema has no triggers and no resources; everything left in it is Send + Sync.
unsafe impl Sync for Shared {}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Way {
    Read,
    Write,
    Transaction,
    Save,
    Delete,
    Nested,
}
const WAYS: &[Way] = &[Way::Read, Way::Write, Way::Transaction, Way::Save, Way::Delete, Way::Nested];

/// One access to a schema that nobody else holds, or will hold for long.
fn access(s: &S, way: Way, id: u8, v: u64, want: Option<u64>) -> Result<Option<u64>, String> {
    let seen = |got: Option<u64>| if got == want { Ok(()) } else { Err(format!("{way:?} sees {got:?} instead of {want:?} in node {id}")) };
    match way {
        Way::Read => {
            seen(s.read().get(&id).map(|n| n.v))?;
            Ok(want)
        }
        Way::Write => {
            let mut g = s.write();
            seen(g.get(&id).map(|n| n.v))?;
            g.insert(N { id, v });
            Ok(Some(v))
        }
        Way::Transaction => {
            s.transaction()
                .with(|ctx| {
                    let got = ctx.node(id).try_deref().map(|n| n.v);
                    ctx.save(N { id, v });
                    Ok(got)
                })
                .map_err(|e| format!("{way:?} fails: {e}"))
                .and_then(seen)?;
            Ok(Some(v))
        }
        Way::Save => {
            Save::new(N { id, v }).execute(s.transaction()).map_err(|e| format!("{way:?} fails: {e}"))?;
            Ok(Some(v))
        }
        Way::Delete => {
            let ok = Delete::<N>::new(id).execute(s.transaction()).is_ok();
            if ok != want.is_some() {
                return Err(format!("{way:?} of node {id}, which is {want:?}, gives {ok}"));
            }
            Ok(None)
        }
        Way::Nested => {
            s.transaction()
                .with(|ctx| {
                    ctx.save(N { id, v: v + 1 });
                    let _ = ctx.transaction().with(|c| {
                        c.delete(id);
                        Err::<(), _>(Error::Noop)
                    });
                    ctx.transaction().with(|c| {
                        c.save(N { id, v });
                        Ok(())
                    })
                })
                .map_err(|e| format!("{way:?} fails: {e}"))?;
            Ok(Some(v))
        }
    }
}

/// While one thread holds a schema and others wait for it, other schemas are free: were they not,
/// every thread would end up asleep, which is noticed.
fn held(c: &mut Case) -> R {
    let mut r = c.rng();
    let count = 2 + r.below(3);
    let schemas: Vec<Shared> = (0..count).map(|k| Shared(Graph::from_iter((0..2).map(|i| N { id: i, v: k as u64 * 10 + i as u64 })).into())).collect();
    let mut model: Vec<State> = schemas.iter().map(|s| whole(&s.0)).collect();
    let tok = c.thread_token();
    let hold = *r.pick(&[Way::Read, Way::Write, Way::Transaction]);
    let waiters: Vec<Way> = (0..1 + r.below(3)).map(|_| *r.pick(&[Way::Read, Way::Write, Way::Transaction, Way::Save, Way::Delete])).collect();
    // Accesses to the others: from this thread and from one more.
    let plan: Vec<(usize, bool, Way, u8, u64)> = (0..2 + r.below(6)).map(|i| (1 + r.below(count - 1), r.chance(40), *r.pick(WAYS), r.below(2) as u8, 1000 + i as u64 * 10)).collect();
    let patience = *r.pick(&[0, 200, 1000, 3000]);
    let began = AtomicU64::new(0);
    let ended = AtomicU64::new(0);
    let wit = || format!("held by {hold:?}, waited for by {waiters:?}, then {plan:?} (schema, from another thread, way, node, value)");
    let done: Result<u64, String> = std::thread::scope(|sc| {
        let mut body = || -> Result<u64, String> {
            for (k, w) in waiters.iter().enumerate() {
                let (s, began, ended, tok, w) = (&schemas[0].0, &began, &ended, tok.clone(), *w);
                let s = Shared2(s);
                sc.spawn(move || {
                    tok.enter();
                    let s = s;
                    began.fetch_add(1, Ordering::SeqCst);
                    match w {
                        Way::Read => drop(s.0.read().contains(&0)),
                        Way::Write => drop(s.0.write().insert(N { id: 10 + k as u8, v: 1 })),
                        Way::Transaction => drop(s.0.transaction().with(|ctx| {
                            ctx.save(N { id: 10 + k as u8, v: 1 });
                            Ok(())
                        })),
                        Way::Save => drop(Save::new(N { id: 10 + k as u8, v: 1 }).execute(s.0.transaction())),
                        _ => drop(Delete::<N>::new(100).execute(s.0.transaction())),
                    }
                    ended.fetch_add(1, Ordering::SeqCst);
                });
            }
            while began.load(Ordering::SeqCst) < waiters.len() as u64 {
                std::thread::yield_now();
            }
            if patience > 0 {
                std::thread::sleep(std::time::Duration::from_micros(patience));
            }
            for (k, other, way, id, v) in &plan {
                let s = &schemas[*k];
                let want = model[*k].get(id).copied();
                let got = if *other {
                    let tok = tok.clone();
                    sc.spawn(move || {
                        tok.enter();
                        access(&Shared::of(s), *way, *id, *v, want)
                    })
                    .join()
                    .map_err(|_| "an access panics".to_string())?
                } else {
                    access(&s.0, *way, *id, *v, want)
                }
                .map_err(|e| format!("schema {k}: {e}"))?;
                match got {
                    Some(v) => drop(model[*k].insert(*id, v)),
                    None => drop(model[*k].remove(id)),
                }
            }
            // How many were kept waiting all the time.
            Ok(waiters.len() as u64 - ended.load(Ordering::SeqCst))
        };
        let s = &schemas[0].0;
        match hold {
            Way::Read => {
                let _g = s.read();
                body()
            }
            Way::Write => {
                let _g = s.write();
                body()
            }
            _ => {
                let mut out = Ok(0);
                let _ = s.transaction().with(|ctx| {
                    ctx.save(N { id: 9, v: 9 });
                    out = body();
                    Ok(())
                });
                out
            }
        }
    });
    let waited = match done {
        Ok(n) => n,
        Err(e) => return Err(Violation::new(format!("while another schema is held and waited for: {e}"), wit())),
    };
    if hold == Way::Transaction {
        model[0].insert(9, 9);
    }
    for (k, w) in waiters.iter().enumerate() {
        if matches!(w, Way::Write | Way::Transaction | Way::Save) {
            model[0].insert(10 + k as u8, 1);
        }
    }
    for (k, s) in schemas.iter().enumerate() {
        let got = whole(&s.0);
        if got != model[k] {
            return Err(Violation::new(format!("schema {k} holds {got:?} instead of {:?}", model[k]), wit()));
        }
    }
    c.count("accesses_beside_a_held_schema", plan.len() as u64);
    c.count("threads_kept_waiting", waited);
    c.mixh(mix(plan.iter().fold(hold as u64, |h, p| h * 31 + p.0 as u64 * 13 + p.2 as u64 * 3 + p.1 as u64) ^ waited << 40));
    c.nontrivial = true;
    Ok(())
}

struct Shared2<'a>(&'a S);
// SAFETY: as of `Shared`.
unsafe impl Send for Shared2<'_> {}

impl Shared {
    fn of(s: &Shared) -> &S {
        &s.0
    }
}

struct Tally(u64);

/// A schema with triggers and a resource, of one thread, for a number of steps.
fn world(seed: u64, steps: usize, shared: Option<&Shared>) -> Result<(u64, u64), String> {
    let mut r = Rng::new(seed);
    let runs: Rc<RefCell<Vec<(u8, u64)>>> = Default::default();
    let veto = Rc::new(Cell::new(false));
    let mut tally = seed % 1000;
    let t = || {
        let (runs, veto) = (runs.clone(), veto.clone());
        move |_: Ctx<'_, N>, t: Target<N>, res: Res<Tally>| {
            let n = t.with(|n| (n.id, n.v)).ok_or_else(|| Error::custom("no target"))?;
            runs.borrow_mut().push(n);
            if veto.get() {
                return Err(Error::custom("veto"));
            }
            let _ = res.with_mut(|t| t.0 += 1);
            Ok(())
        }
    };
    let make = |tally: u64| S::from(Graph::default()).with_resource(Tally(tally)).with_trigger(AfterSave, t()).with_trigger(AfterDelete, t());
    let mut s = make(tally);
    let mut model = State::new();
    let mut done = 0;
    for i in 0..steps {
        let id = r.below(4) as u8;
        let v = seed.wrapping_add(i as u64);
        veto.set(r.chance(10));
        runs.borrow_mut().clear();
        let mut want = vec![];
        match r.below(9) {
            0 | 1 => {
                want.push((id, v));
                let got = Save::new(N { id, v }).execute(s.transaction()).is_ok();
                if got == veto.get() {
                    return Err(format!("step {i}: a save gives {got}"));
                }
            }
            2 => {
                let had = model.get(&id).copied();
                want.extend(had.map(|v| (id, v)));
                let got = Delete::<N>::new(id).execute(s.transaction()).is_ok();
                if got != (had.is_some() && !veto.get()) {
                    return Err(format!("step {i}: deleting node {id}, {had:?}, gives {got}"));
                }
                if got {
                    model.remove(&id);
                    tally += 1;
                }
            }
            3 => {
                // A failed transaction, or one that panics.
                let panics = r.chance(50);
                let _ = catch_unwind(AssertUnwindSafe(|| {
                    s.transaction().with(|ctx| {
                        ctx.save(N { id, v: 0 });
                        let _ = ctx.transaction().with(|c| {
                            c.delete(id);
                            Ok(())
                        });
                        if panics {
                            resume_unwind(Box::new(()));
                        }
                        Err::<(), _>(Error::Noop)
                    })
                }));
                // A panic under the write lock leaves it poisoned, or not: start afresh.
                if panics {
                    s = make(tally);
                    model.clear();
                }
            }
            4 => {
                if r.chance(50) {
                    s.write().insert(N { id, v });
                    model.insert(id, v);
                } else {
                    s.write().remove(&id);
                    model.remove(&id);
                }
            }
            5 => {
                s = make(tally);
                model.clear();
            }
            6 if shared.is_some() => {
                // A common schema, within one's own transaction.
                let common = &shared.unwrap().0;
                let got = s.transaction().with(|ctx| {
                    ctx.save(N { id, v });
                    let inner = common.transaction().with(|c| {
                        c.save(N { id: 200, v });
                        Ok(c.node(200).try_deref().map(|n| n.v))
                    });
                    Ok((inner.ok().flatten(), ctx.node(id).try_deref().map(|n| n.v), ctx.contains(&200)))
                });
                model.insert(id, v);
                if got.as_ref().ok() != Some(&(Some(v), Some(v), false)) {
                    return Err(format!("step {i}: a transaction in a common schema, within one's own, sees {:?}", got.ok()));
                }
            }
            _ => {
                let got = s.transaction().with(|ctx| Ok(ctx.node(id).try_deref().map(|n| n.v)));
                if got.ok() != Some(model.get(&id).copied()) {
                    return Err(format!("step {i}: node {id} is not {:?}", model.get(&id)));
                }
            }
        }
        if let (Some(x), false) = (want.first(), veto.get()) {
            if x.1 == v {
                model.insert(id, v);
                tally += 1;
            }
        }
        done += 1;
        if *runs.borrow() != want {
            return Err(format!("step {i}: triggers ran for {:?} instead of {want:?}", runs.borrow()));
        }
        let got = whole(&s);
        if got != model {
            return Err(format!("step {i}: the graph holds {got:?} instead of {model:?}"));
        }
        let t = Res::<Tally>::from(s.resources()).with(|t| t.0);
        if t != Some(tally) {
            return Err(format!("step {i}: the resource is {t:?} instead of {tally}"));
        }
    }
    Ok((done, tally))
}

/// Threads with schemas of their own, at the same time.
fn worlds(c: &mut Case) -> R {
    let mut r = c.rng();
    let n = 2 + r.below(5);
    let steps = if cfg!(miri) { 8 } else { 20 + r.below(60) };
    let common = r.chance(50).then(|| Shared(S::from(Graph::default())));
    let bar = Barrier::new(n);
    let (tok, seed) = (c.thread_token(), c.seed);
    let all: Vec<Result<(u64, u64), String>> = std::thread::scope(|sc| {
        let hs: Vec<_> = (0..n)
            .map(|k| {
                let (tok, bar, common) = (tok.clone(), &bar, &common);
                sc.spawn(move || {
                    tok.enter();
                    bar.wait();
                    catch_unwind(AssertUnwindSafe(|| world(mix(seed ^ k as u64), steps, common.as_ref()))).unwrap_or_else(|_| Err(format!("the thread panics: {}", vcommon::last_panic())))
                })
            })
            .collect();
        hs.into_iter().map(|h| h.join().unwrap_or_else(|_| Err("the thread panics".into()))).collect()
    });
    for (k, x) in all.iter().enumerate() {
        match x {
            Ok((done, tally)) => {
                c.count("steps_beside_other_threads", *done);
                c.mixh(*tally);
            }
            Err(e) => return Err(Violation::new(format!("thread {k} of {n}, each with a schema of its own: {e}"), format!("{steps} steps each, common schema: {}", common.is_some()))),
        }
    }
    if let Some(s) = &common {
        if whole(&s.0).keys().any(|k| *k != 200) {
            return Err(Violation::new(format!("the common schema holds {:?}", whole(&s.0)), format!("{n} threads")));
        }
    }
    c.nontrivial = true;
    Ok(())
}

pub fn apart(c: &mut Case) -> R {
    if c.rng().chance(50) {
        held(c)
    } else {
        worlds(c)
    }
}
