//! Depth. C01, C02, C03: subtransactions within subtransactions, up to a thousand levels, each with
//! changes before, between and after those inside. C05 to C08: operations in triggers of operations,
//! as deep, with targets, order, failures and results compared at every level.

use std::cell::RefCell;
use std::collections::BTreeMap;
use std::panic::{catch_unwind, resume_unwind, AssertUnwindSafe};
use std::rc::Rc;

use plotline::deref::{TryDeref, With, WithMut};
use plotline::graph::{Graph, Source};
use plotline::id::Identify;
use plotline::schema::ops::delete::{AfterDelete, BeforeDelete, Delete};
use plotline::schema::ops::save::{AfterSave, BeforeSave, Save};
use plotline::schema::transaction::{Context, Ctx, Target, Transaction};
use plotline::schema::trigger::Trigger;
use plotline::schema::{Error, Schema};
use vcommon::{Case, Rng, Violation};

#[derive(Clone, Debug, PartialEq)]
pub struct N {
    id: u16,
    v: u64,
}
impl Identify for N {
    type Id = u16;
    fn id(&self) -> &u16 {
        &self.id
    }
}

type State = BTreeMap<u16, u64>;

fn whole(s: &Schema<N>) -> State {
    s.read().into_iter().map(|n| (n.id, n.v)).collect()
}

fn depth(c: &Case, r: &mut Rng) -> usize {
    if cfg!(miri) {
        *r.pick(&[5, 9])
    } else {
        // Sanitizers make frames several times as large.
        let most = if c.light { 130 } else { 2000 };
        (*r.pick(&[12, 17, 33, 40, 64, 65, 70, 100, 130, 200, 257, 300, 520, 1030])).min(most)
    }
}

// ------------------------------------------------------------------ levels

struct Levels {
    r: Rng,
    depth: usize,
    /// The value of each node as seen at the current level; undone by whoever fails.
    now: State,
    next: u64,
    /// Percentage of levels that fail or panic, and that read.
    trouble: u32,
    reads: u32,
    wrong: Option<String>,
    checked: u64,
    failed: u64,
}

impl Levels {
    fn change(&mut self, ctx: &Context<'_, N>) {
        for _ in 0..self.r.below(3) {
            let id = self.r.below(12) as u16;
            if self.r.chance(70) {
                self.next += 1;
                ctx.save(N { id, v: self.next });
                self.now.insert(id, self.next);
            } else {
                ctx.delete(id);
                self.now.remove(&id);
            }
        }
    }
    fn look(&mut self, ctx: &Context<'_, N>, d: usize, when: &str) {
        if self.wrong.is_some() || !self.r.chance(self.reads) {
            return;
        }
        let id = self.r.below(12) as u16;
        let want = self.now.get(&id).copied();
        let got = match self.r.below(3) {
            0 => ctx.get(&id).map(|n| n.v),
            1 => ctx.contains(&id).then(|| ctx.get(&id).map(|n| n.v)).flatten(),
            _ => ctx.node(id).try_deref().map(|n| n.v),
        };
        self.checked += 1;
        if got != want || ctx.contains(&id) != want.is_some() {
            self.wrong = Some(format!("{when} the subtransaction at level {d}, node {id} is {got:?} instead of {want:?}"));
        }
    }
    fn go(&mut self, ctx: &Context<'_, N>, d: usize) {
        self.change(ctx);
        self.look(ctx, d, "before");
        if d < self.depth {
            let inner = if self.r.chance(8) { 2 } else { 1 };
            for i in 0..inner {
                let before = self.now.clone();
                let fate = if self.r.chance(self.trouble) { 1 + self.r.below(2) } else { 0 };
                // Only one of them goes all the way.
                let deep = i == 0;
                let got = catch_unwind(AssertUnwindSafe(|| {
                    ctx.transaction().with(|c| {
                        if deep {
                            self.go(&c, d + 1);
                        } else {
                            self.change(&c);
                            self.look(&c, d + 1, "in");
                        }
                        match fate {
                            0 => Ok(d),
                            1 => Err(Error::Noop),
                            _ => resume_unwind(Box::new(())),
                        }
                    })
                }));
                match (&got, fate) {
                    (Ok(Ok(x)), 0) if *x == d => {}
                    (Ok(Err(Error::Noop)), 1) | (Err(_), 2) => {
                        self.now = before;
                        self.failed += 1;
                    }
                    _ => {
                        self.wrong.get_or_insert(format!("the subtransaction at level {d} ended otherwise than its body, {fate}"));
                    }
                }
                self.look(ctx, d, "after");
            }
        }
        self.change(ctx);
        self.look(ctx, d, "last in");
    }
}

pub fn levels(c: &mut Case) -> Result<(), Violation> {
    let mut r = c.rng();
    let depth = depth(c, &mut r);
    let start: State = (0..12).filter(|_| r.chance(50)).map(|i| (i, i as u64)).collect();
    let s: Schema<N> = Graph::from_iter(start.iter().map(|(id, v)| N { id: *id, v: *v })).into();
    let (trouble, reads) = (*r.pick(&[0, 0, 2, 10]), *r.pick(&[0, 10, 60]));
    let mut l = Levels { r: r.clone(), depth, now: start.clone(), next: 100, trouble, reads, wrong: None, checked: 0, failed: 0 };
    let fate = if r.chance(80) { 0 } else { 1 + r.below(2) };
    let got = catch_unwind(AssertUnwindSafe(|| {
        s.transaction().with(|ctx| {
            l.go(&ctx, 1);
            match fate {
                0 => Ok(()),
                1 => Err(Error::Noop),
                _ => resume_unwind(Box::new(())),
            }
        })
    }));
    let want = if fate == 0 { l.now.clone() } else { start };
    c.count("deep_levels", depth as u64);
    c.max("max_depth", depth as u64 + 1);
    c.count("deep_reads", l.checked);
    c.count("deep_failures", l.failed);
    for (id, v) in &want {
        c.mixh(*v << 8 | *id as u64);
    }
    c.mixh(l.checked << 20 | depth as u64);
    c.nontrivial = true;
    let show = || format!("{depth} levels, {trouble} % fail, {reads} % read");
    if let Some(w) = l.wrong {
        return Err(Violation::new(w, show()));
    }
    if matches!(got, Ok(Ok(()))) != (fate == 0) {
        return Err(Violation::new(format!("the transaction around {depth} levels ended otherwise than its body, {fate}"), show()));
    }
    let have = whole(&s);
    if have != want {
        return Err(Violation::new(format!("after a transaction of {depth} levels the graph holds {have:?} instead of {want:?}"), show()));
    }
    Ok(())
}

// ------------------------------------------------------------------ ladder

#[derive(Clone, Copy, Debug, PartialEq)]
enum Kind {
    Save,
    Delete,
    Event,
}

/// What happens at one rung: an operation on the node with its number.
#[derive(Clone, Copy, Debug)]
struct Rung {
    kind: Kind,
    /// Whether the next one is run after this one's change, and by which of the triggers.
    after: bool,
    by: usize,
    swallow: bool,
    fails: bool,
    rewrites: bool,
}

struct Plan {
    rungs: Vec<Rung>,
    triggers: usize,
    log: RefCell<Vec<(u16, bool, usize, Option<u64>)>>,
    wrong: RefCell<Option<String>>,
}
struct Ping;

const VALUE: u64 = 1 << 32;

fn run(p: &Plan, ctx: &Ctx<'_, N>, d: usize) -> Result<(), String> {
    let id = d as u16;
    match p.rungs[d].kind {
        Kind::Save => Save::new(N { id, v: VALUE + d as u64 }).execute(ctx.transaction()),
        Kind::Delete => Delete::<N>::new(id).execute(ctx.transaction()),
        Kind::Event => ctx.transaction().with(|c| {
            let c = c.with_target(N { id, v: VALUE + d as u64 });
            c.triggers().select(Ping).execute(&c)
        }),
    }
    .map_err(|e| e.to_string())
}

/// A trigger of the rung the target names.
fn trigger(p: &Plan, ctx: &Ctx<'_, N>, t: &Target<N>, after: bool, by: usize) -> Result<(), Error> {
    let Some((id, v)) = t.with(|n| (n.id, n.v)) else {
        p.wrong.borrow_mut().get_or_insert("a trigger has no access to its target".into());
        return Ok(());
    };
    p.log.borrow_mut().push((id, after, by, Some(v)));
    let d = id as usize;
    let rung = p.rungs[d];
    if rung.rewrites {
        t.with_mut(|n| n.v += 1 << 40);
    }
    if rung.after != after || rung.by != by {
        return Ok(());
    }
    if d + 1 < p.rungs.len() {
        let before = t.with(|n| n.clone());
        let got = run(p, ctx, d + 1);
        let now = t.with(|n| n.clone());
        if before != now {
            p.wrong.borrow_mut().get_or_insert(format!("the target at level {d} was {before:?} and is {now:?} after the operation inside"));
        }
        if let (Err(e), false) = (got, rung.swallow) {
            return Err(Error::custom(e));
        }
    }
    if rung.fails {
        return Err(Error::custom(format!("level {d}")));
    }
    Ok(())
}

/// The same, on a map.
fn model(p: &Plan, d: usize, st: &mut State, log: &mut Vec<(u16, bool, usize, Option<u64>)>) -> Result<(), String> {
    let id = d as u16;
    let rung = p.rungs[d];
    let keep = st.clone();
    let mut v = match rung.kind {
        Kind::Delete => match st.get(&id) {
            Some(v) => *v,
            None => return Err(Error::Noop.to_string()),
        },
        _ => VALUE + d as u64,
    };
    let phases: &[bool] = if rung.kind == Kind::Event { &[false] } else { &[false, true] };
    for &after in phases {
        if after {
            match rung.kind {
                Kind::Save => drop(st.insert(id, v)),
                _ => drop(st.remove(&id)),
            }
        }
        for by in 0..p.triggers {
            log.push((id, after, by, Some(v)));
            if rung.rewrites {
                v += 1 << 40;
            }
            if rung.after != after || rung.by != by {
                continue;
            }
            let mut res = Ok(());
            if d + 1 < p.rungs.len() {
                res = model(p, d + 1, st, log);
            }
            if rung.swallow {
                res = Ok(());
            }
            if res.is_ok() && rung.fails {
                res = Err(format!("level {d}"));
            }
            if res.is_err() {
                *st = keep;
                return res;
            }
        }
    }
    Ok(())
}

pub fn ladder(c: &mut Case) -> Result<(), Violation> {
    let mut r = c.rng();
    let depth = depth(c, &mut r).min(320);
    let triggers = 1 + r.below(3);
    let trouble = *r.pick(&[0, 0, 1, 6]);
    let one = r.chance(30).then(|| *r.pick(&[Kind::Save, Kind::Save, Kind::Delete, Kind::Event]));
    let rungs: Vec<Rung> = (0..depth)
        .map(|_| {
            let kind = one.unwrap_or(*r.pick(&[Kind::Save, Kind::Save, Kind::Delete, Kind::Event]));
            Rung { kind, after: kind != Kind::Event && r.chance(50), by: r.below(triggers), swallow: r.chance(30), fails: r.chance(trouble), rewrites: r.chance(20) }
        })
        .collect();
    let mut st: State = (0..depth as u16).filter(|i| rungs[*i as usize].kind == Kind::Delete && r.chance(98) || r.chance(30)).map(|i| (i, i as u64)).collect();
    let p = Rc::new(Plan { rungs, triggers, log: Default::default(), wrong: Default::default() });
    let mut s: Schema<N> = Graph::from_iter(st.iter().map(|(id, v)| N { id: *id, v: *v })).into();
    for by in 0..triggers {
        let t = |after: bool| {
            let p = p.clone();
            move |ctx: Ctx<'_, N>, t: Target<N>| trigger(&p, &ctx, &t, after, by)
        };
        s = s.with_trigger(BeforeSave, t(false)).with_trigger(AfterSave, t(true)).with_trigger(BeforeDelete, t(false)).with_trigger(AfterDelete, t(true)).with_trigger(Ping, t(false));
    }
    c.count("ladders", 1);
    c.count("ladder_levels", depth as u64);
    c.nontrivial = true;
    let show = || format!("{depth} levels, {triggers} triggers each: {:?}", p.rungs);
    for round in 0..2 {
        p.log.borrow_mut().clear();
        // Inside a transaction of its own, or as one.
        let got = if round == 1 || p.rungs[0].kind == Kind::Event {
            s.transaction()
                .with(|c| c.transaction().with(|c| {
                    let c = c.with_target(N { id: 0, v: VALUE });
                    match p.rungs[0].kind {
                        Kind::Save => Save::new(N { id: 0, v: VALUE }).execute(c.transaction()),
                        Kind::Delete => Delete::<N>::new(0).execute(c.transaction()),
                        Kind::Event => c.triggers().select(Ping).execute(&c),
                    }
                }))
        } else if p.rungs[0].kind == Kind::Save {
            Save::new(N { id: 0, v: VALUE }).execute(s.transaction())
        } else {
            Delete::<N>::new(0).execute(s.transaction())
        }
        .map_err(|e| e.to_string());
        let mut log = vec![];
        let want = model(&p, 0, &mut st, &mut log);
        for (id, after, by, v) in &log {
            c.mixh(v.unwrap_or(0) << 20 | (*id as u64) << 4 | (*by as u64) << 1 | *after as u64);
        }
        c.count("ladder_triggers", log.len() as u64);
        c.count("ladders_failed", want.is_err() as u64);
        if let Some(w) = p.wrong.borrow().clone() {
            return Err(Violation::new(w, show()));
        }
        let ran = p.log.borrow().clone();
        if ran != log {
            let at = ran.iter().zip(&log).take_while(|(a, b)| a == b).count();
            return Err(Violation::new(
                format!("of operations in triggers of operations, {depth} levels deep, trigger run {at} is {:?} instead of {:?} (level, after, index, value of the target)", ran.get(at), log.get(at)),
                show(),
            ));
        }
        if got != want {
            return Err(Violation::new(format!("operations in triggers of operations, {depth} levels deep, give {got:?} instead of {want:?}"), show()));
        }
        let have = whole(&s);
        if have != st {
            let id = (0..depth as u16).find(|i| have.get(i) != st.get(i));
            return Err(Violation::new(format!("after operations in triggers of operations, {depth} levels deep, node {id:?} is {:?} instead of {:?}", id.and_then(|i| have.get(&i)), id.and_then(|i| st.get(&i))), show()));
        }
    }
    Ok(())
}
