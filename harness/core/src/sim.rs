//! Programs over a schema, their generator, and the executor that runs them on the real code with
//! the monitor alongside.

use std::any::Any;
use std::panic::{catch_unwind, resume_unwind, AssertUnwindSafe};

use plotline::deref::{TryDeref, With, WithMut};
use plotline::graph::{Graph, NodeProxy, Source};
use plotline::id::Identify;
use plotline::schema::ops::delete::{AfterDelete, BeforeDelete, Delete};
use plotline::schema::ops::save::{AfterSave, BeforeSave, Save};
use plotline::schema::plugin::Plugin;
use plotline::schema::resource::Res;
use plotline::schema::transaction::{Context, Ctx, Foreground, Target, Transaction};
use plotline::schema::trigger::Trigger;
use plotline::schema::{Error, Result, Schema};
use vcommon::{mix, Rng};

use crate::keys::Key;
use crate::mon::*;
use crate::node::{edges_of, live, Edge, Node};

// ------------------------------------------------------------------ programs

#[derive(Clone, Debug, PartialEq)]
pub enum End {
    Ok,
    Err,
    Panic,
    Drop,
}

#[derive(Clone, Debug)]
pub enum Step {
    Read(usize),
    Scan,
    Save(usize),
    Del(usize),
    OpSave { k: usize, catch: bool, propagate: bool },
    OpDel { k: usize, catch: bool, propagate: bool },
    Sub(Sub),
    Sibs { subs: Vec<Sub>, parent: Vec<Vec<Step>>, order: u64 },
    Fire { e: usize, propagate: bool },
    Target { write: bool },
    Res { r: usize, write: bool },
    Proxy(usize),
    ProxyUse { i: usize, what: u8 },
    Bulk { n: usize, seed: u64 },
}

#[derive(Clone, Debug)]
pub struct Sub {
    pub target: Option<usize>,
    /// Run in a context opened before the closure (for siblings: one segment each).
    pub pre: Vec<Vec<Step>>,
    pub body: Vec<Step>,
    pub end: End,
    pub catch: bool,
    pub propagate: bool,
    pub cross: bool,
}

#[derive(Clone, Debug)]
pub enum Top {
    Tx { pre: Vec<Step>, body: Vec<Step>, end: End, idle: bool },
    OpSave(usize),
    OpDel(usize),
    Write { ops: Vec<(usize, bool)>, panic: bool },
    Read,
}

#[derive(Clone, Debug)]
pub struct Prog {
    pub key: usize,
    pub universe: usize,
    pub seed: u64,
    pub init: Vec<usize>,
    pub triggers: Vec<(usize, u8, bool)>, // event, parameter shape, via plugin
    pub regs: [bool; 2],
    pub tops: Vec<Top>,
}

fn show_steps(out: &mut String, ind: usize, steps: &[Step]) {
    for s in steps {
        let pad = "  ".repeat(ind);
        match s {
            Step::Sub(sub) => show_sub(out, ind, "sub", sub),
            Step::Sibs { subs, parent, order } => {
                out.push_str(&format!("{pad}siblings order={order:x}\n"));
                for s in subs {
                    show_sub(out, ind + 1, "sibling", s);
                }
                for p in parent {
                    out.push_str(&format!("{pad}  parent, interleaved:\n"));
                    show_steps(out, ind + 2, p);
                }
            }
            s => out.push_str(&format!("{pad}{s:?}\n")),
        }
    }
}
fn show_sub(out: &mut String, ind: usize, name: &str, s: &Sub) {
    let pad = "  ".repeat(ind);
    out.push_str(&format!(
        "{pad}{name} target={:?} end={:?} catch={} propagate={}\n",
        s.target, s.end, s.catch, s.propagate
    ));
    for p in &s.pre {
        out.push_str(&format!("{pad}  early context:\n"));
        show_steps(out, ind + 2, p);
    }
    show_steps(out, ind + 1, &s.body);
}
pub fn show(p: &Prog) -> String {
    let mut o = format!(
        "ids={} universe={} init={:?} triggers(event,shape,plugin)={:?} resources={:?}\n",
        KEY_NAMES[p.key], p.universe, p.init, p.triggers, p.regs
    );
    for t in &p.tops {
        match t {
            Top::Tx { pre, body, end, idle } => {
                o.push_str(&format!("transaction end={end:?} idle={idle}\n"));
                if !pre.is_empty() {
                    o.push_str("  early context:\n");
                    show_steps(&mut o, 2, pre);
                }
                show_steps(&mut o, 1, body);
            }
            t => o.push_str(&format!("{t:?}\n")),
        }
    }
    o
}

pub const KEY_NAMES: [&str; 4] = ["u32", "string", "reverse", "case-insensitive"];

// ------------------------------------------------------------------ generator

#[derive(Clone, Copy)]
pub struct Profile {
    pub focus: u32,
    /// read, scan, save, del, opsave, opdel, sub, sibs, fire, target, res, proxy, proxyuse, bulk
    pub w: [u32; 14],
    pub ends: [u32; 4],
    pub len: usize,
    pub depth: usize,
    pub tops: usize,
    pub top_w: [u32; 5], // tx, opsave, opdel, write, read
    pub max_triggers: usize,
    pub actions: ActionWeights,
    pub propagate: u32,
    pub deep: bool,
    pub many: bool,
    /// Small universes, for runs under Miri.
    pub small: bool,
}

fn gen_sub(r: &mut Rng, p: &Profile, u: usize, depth: usize, sib: bool) -> Sub {
    let ends = [End::Ok, End::Err, End::Panic, End::Drop];
    let npre = if sib { 1 + r.below(3) } else { r.chance(20) as usize };
    Sub {
        target: r.chance(15).then(|| r.below(u)),
        pre: (0..npre).map(|_| { let n = 1 + r.below(4); gen_steps(r, p, u, depth + 1, n) }).collect(),
        body: { let n = r.below(p.len.max(1)); gen_steps(r, p, u, depth + 1, n) },
        end: ends[r.weighted(&p.ends)].clone(),
        catch: r.chance(80),
        propagate: r.chance(p.propagate),
        cross: r.chance(60),
    }
}

pub fn gen_steps(r: &mut Rng, p: &Profile, u: usize, depth: usize, n: usize) -> Vec<Step> {
    let mut v = vec![];
    for _ in 0..n {
        let mut w = p.w;
        if depth >= p.depth {
            w[6] = 0;
            w[7] = 0;
        }
        if depth > 1 || (depth == 1 && r.chance(70)) {
            w[13] = 0;
        }
        v.push(match r.weighted(&w) {
            0 => Step::Read(r.below(u)),
            1 => Step::Scan,
            2 => Step::Save(r.below(u)),
            3 => Step::Del(r.below(u)),
            4 => Step::OpSave { k: r.below(u), catch: r.chance(60), propagate: r.chance(p.propagate) },
            5 => Step::OpDel { k: r.below(u), catch: r.chance(60), propagate: r.chance(p.propagate) },
            6 => Step::Sub(gen_sub(r, p, u, depth, false)),
            7 => {
                let n = 2 + r.below(3);
                let subs = (0..n).map(|_| gen_sub(r, p, u, depth, true)).collect();
                let np = r.below(3);
                let parent = (0..np).map(|_| { let n = 1 + r.below(3); gen_steps(r, p, u, p.depth, n) }).collect();
                Step::Sibs { subs, parent, order: r.u64() }
            }
            8 => Step::Fire { e: r.below(8), propagate: r.chance(p.propagate) },
            9 => Step::Target { write: r.chance(50) },
            10 => Step::Res { r: r.below(2), write: r.chance(50) },
            11 => Step::Proxy(r.below(u)),
            12 => Step::ProxyUse { i: r.below(8), what: r.below(4) as u8 },
            _ => {
                let n = if r.chance(4) { 1 + r.edge(6000) } else { [20, 70, 300, 1200][r.below(4)] };
                Step::Bulk { n: if r.chance(50) { n } else { n - r.below(n.min(40)) }, seed: r.u64() }
            }
        });
    }
    v
}

fn deep_sub(r: &mut Rng, p: &Profile, u: usize, left: usize) -> Vec<Step> {
    let mut v = gen_steps(r, p, u, p.depth, 2);
    if left > 0 {
        v.push(Step::Sub(Sub {
            target: None,
            pre: vec![],
            body: deep_sub(r, p, u, left - 1),
            end: if r.chance(92) { End::Ok } else { End::Err },
            catch: true,
            propagate: false,
            cross: false,
        }));
        v.extend(gen_steps(r, p, u, p.depth, 2));
    }
    v.push(Step::Read(r.below(u)));
    v
}

pub fn gen_prog(seed: u64, p: &Profile) -> Prog {
    let r = &mut Rng::new(seed);
    let universe = if p.small { 1 + r.below(4) } else { *r.pick(&[1, 2, 3, 5, 8, 12, 30, 100]) };
    let ninit = r.below(universe + 1);
    let mut init: Vec<usize> = (0..universe).collect();
    r.shuffle(&mut init);
    init.truncate(ninit);
    let ntrig = match r.below(10) {
        0 | 1 => 0,
        9 if p.many => r.below(p.max_triggers * 6 + 1),
        _ => r.below(p.max_triggers + 1),
    };
    let focus_event = if r.chance(30) { Some(r.below(8)) } else { None };
    let ends = [End::Ok, End::Err, End::Panic, End::Drop];
    let triggers = (0..ntrig)
        .map(|_| {
            let e = match focus_event {
                Some(e) if r.chance(70) => e,
                _ => r.weighted(&[3, 3, 3, 3, 1, 1, 1, 1]),
            };
            (e, r.below(9) as u8, r.chance(25))
        })
        .collect();
    let ntops = 1 + r.below(p.tops);
    let tops = (0..ntops)
        .map(|_| match r.weighted(&p.top_w) {
            0 => {
                let body = if p.deep && r.chance(6) {
                    let d = 4 + r.below(28);
                    deep_sub(r, p, universe, d)
                } else {
                    let n = 1 + r.below(p.len);
                    gen_steps(r, p, universe, 0, n)
                };
                Top::Tx {
                    pre: if r.chance(10) { gen_steps(r, p, universe, 0, 3) } else { vec![] },
                    body,
                    end: ends[r.weighted(&p.ends)].clone(),
                    idle: r.chance(15),
                }
            }
            1 => Top::OpSave(r.below(universe)),
            2 => Top::OpDel(r.below(universe)),
            3 => Top::Write {
                ops: (0..r.below(4)).map(|_| (r.below(universe), r.chance(60))).collect(),
                panic: r.chance(20),
            },
            _ => Top::Read,
        })
        .collect();
    Prog {
        key: r.below(4),
        universe,
        seed: r.u64(),
        init,
        triggers,
        regs: [r.chance(75), r.chance(75)],
        tops,
    }
}

// ------------------------------------------------------------------ triggers

pub struct Injected;
pub struct Custom0;
pub struct Custom1 {
    pub _x: String,
}
/// Two distinct event types that share a name.
fn namesakes() -> (impl Sized + 'static, impl Sized + 'static) {
    let one = {
        struct Custom;
        Custom
    };
    let two = {
        struct Custom;
        Custom
    };
    (one, two)
}
pub struct R0(pub u64);
pub struct R1(pub u64);

/// A parameter type of ours: records what the context it was built from looks like.
pub struct Probe {
    target: Option<(u64, u64)>,
}
impl<K: Key> From<&Context<'_, Node<K>>> for Probe {
    fn from(ctx: &Context<'_, Node<K>>) -> Self {
        mon(|m| m.probes += 1);
        Probe { target: ctx.target().with(|n| (n.uid, n.rev)) }
    }
}

type N<K> = Node<K>;

struct Args<'a, 'b, K: Key> {
    targets: &'a [&'b Target<N<K>>],
    r0: Option<&'b Res<R0>>,
    r1: Option<&'b Res<R1>>,
    probes: &'a [&'b Probe],
}

fn with_event<K: Key, S: 'static>(s: Schema<N<K>>, ev: S, shape: u8, t: usize) -> Schema<N<K>> {
    macro_rules! go {
        ([$($p:ident : $ty:ty),*], [$($tg:ident),*], $r0:expr, $r1:expr, [$($pr:ident),*]) => {
            s.with_trigger(ev, move |ctx: Ctx<'_, N<K>> $(, $p: $ty)*| -> Result<()> {
                fire::<K>(t, &ctx, Args { targets: &[$(&$tg),*], r0: $r0, r1: $r1, probes: &[$(&$pr),*] })
            })
        };
    }
    type T<K> = Target<N<K>>;
    match shape {
        0 => go!([], [], None, None, []),
        1 => s.with_trigger(ev, move |ctx: Ctx<'_, N<K>>, a: T<K>| -> Result<()> {
            fire::<K>(t, &ctx, Args { targets: &[&a], r0: None, r1: None, probes: &[] })
        }),
        2 => s.with_trigger(ev, move |ctx: Ctx<'_, N<K>>, a: T<K>, b: Res<R0>| -> Result<()> {
            fire::<K>(t, &ctx, Args { targets: &[&a], r0: Some(&b), r1: None, probes: &[] })
        }),
        3 => s.with_trigger(ev, move |ctx: Ctx<'_, N<K>>, p: Probe, a: T<K>, q: Probe| -> Result<()> {
            fire::<K>(t, &ctx, Args { targets: &[&a], r0: None, r1: None, probes: &[&p, &q] })
        }),
        4 => s.with_trigger(ev, move |ctx: Ctx<'_, N<K>>, b: Res<R1>, a: T<K>, c: Res<R0>, p: Probe| -> Result<()> {
            fire::<K>(t, &ctx, Args { targets: &[&a], r0: Some(&c), r1: Some(&b), probes: &[&p] })
        }),
        5 => s.with_trigger(ev, move |ctx: Ctx<'_, N<K>>, a: T<K>, p: Probe, b: T<K>, q: Probe, c: Res<R1>| -> Result<()> {
            fire::<K>(t, &ctx, Args { targets: &[&a, &b], r0: None, r1: Some(&c), probes: &[&p, &q] })
        }),
        6 => s.with_trigger(ev, move |ctx: Ctx<'_, N<K>>, p: Probe, q: Probe, r: Probe, a: T<K>, c: Res<R0>, d: Res<R1>| -> Result<()> {
            fire::<K>(t, &ctx, Args { targets: &[&a], r0: Some(&c), r1: Some(&d), probes: &[&p, &q, &r] })
        }),
        7 => s.with_trigger(ev, move |ctx: Ctx<'_, N<K>>, a: T<K>, p: Probe, q: Probe, r: Probe, c: Res<R0>, d: Res<R1>, b: T<K>| -> Result<()> {
            fire::<K>(t, &ctx, Args { targets: &[&a, &b], r0: Some(&c), r1: Some(&d), probes: &[&p, &q, &r] })
        }),
        _ => s.with_trigger(ev, move |ctx: Ctx<'_, N<K>>, c: Res<R0>, d: Res<R1>, p: Probe, a: T<K>, q: Probe, b: T<K>, r: Probe, e: T<K>| -> Result<()> {
            fire::<K>(t, &ctx, Args { targets: &[&a, &b, &e], r0: Some(&c), r1: Some(&d), probes: &[&p, &q, &r] })
        }),
    }
}

fn register<K: Key>(s: Schema<N<K>>, e: usize, shape: u8, t: usize) -> Schema<N<K>> {
    match e {
        0 => with_event(s, BeforeSave, shape, t),
        1 => with_event(s, AfterSave, shape, t),
        2 => with_event(s, BeforeDelete, shape, t),
        3 => with_event(s, AfterDelete, shape, t),
        4 => with_event(s, Custom0, shape, t),
        5 => with_event(s, Custom1 { _x: String::new() }, shape, t),
        6 => with_event(s, namesakes().0, shape, t),
        _ => with_event(s, namesakes().1, shape, t),
    }
}

struct Bundle {
    triggers: Vec<(usize, u8, usize)>,
    r1: Option<R1>,
}
impl<K: Key> Plugin<N<K>> for Bundle {
    fn install(self, mut s: Schema<N<K>>) -> Schema<N<K>>
    where
        N<K>: Identify,
    {
        for (e, shape, t) in self.triggers {
            s = register(s, e, shape, t);
        }
        if let Some(r) = self.r1 {
            s = s.with_resource(r);
        }
        s
    }
}

fn fire_event<K: Key>(ctx: &Context<'_, N<K>>, e: usize) -> Result<()> {
    let t = ctx.triggers();
    match e {
        0 => t.select(BeforeSave).execute(ctx),
        1 => t.select(AfterSave).execute(ctx),
        2 => t.select(BeforeDelete).execute(ctx),
        3 => t.select(AfterDelete).execute(ctx),
        4 => t.select(Custom0).execute(ctx),
        5 => t.select(Custom1 { _x: "y".into() }).execute(ctx),
        6 => t.select(namesakes().0).execute(ctx),
        _ => t.select(namesakes().1).execute(ctx),
    }
}

fn inject() -> ! {
    std::panic::resume_unwind(Box::new(Injected))
}

fn check_fault() -> Result<()> {
    match mon(|m| m.fault_point()) {
        None => Ok(()),
        Some(FaultKind::Err) => Err(mon(|m| {
            let u = m.uid();
            Error::custom(format!("fault-{u}"))
        })),
        Some(FaultKind::Panic) => inject(),
    }
}

pub fn clone_fault() {
    // Called by Node::clone, inside the code under test.
    match try_mon(|m| m.fault_point()) {
        Some(Some(FaultKind::Panic)) => {
            mon(|m| m.count("clone_panics"));
            inject()
        }
        _ => {}
    }
}

/// A target that a trigger keeps beyond its own run: reads it, or writes the given revision first.
type Kept = Box<dyn Fn(Option<u64>) -> Option<(usize, u64, u64)>>;

thread_local! {
    static KEPT: std::cell::RefCell<Vec<(usize, Kept)>> = const { std::cell::RefCell::new(vec![]) };
}

/// Lets go of all kept targets.
pub fn forget_kept() {
    let kept = KEPT.with(|k| std::mem::take(&mut *k.borrow_mut()));
    drop(kept);
}

fn keep<K: Key>(t: &Target<N<K>>, cell: Option<usize>) {
    let Some(cell) = cell else { return };
    let t = t.clone();
    KEPT.with(|k| {
        let mut k = k.borrow_mut();
        if k.len() < 12 {
            k.push((
                cell,
                Box::new(move |w| {
                    if let Some(w) = w {
                        t.with_mut(|n| n.rev = w);
                    }
                    t.with(|n| (n.id.index(), n.uid, n.rev))
                }),
            ));
        }
    });
}

/// The kept targets of the operations in progress show what their triggers wrote.
fn check_kept(cell: Option<usize>) {
    let bad = KEPT.with(|k| {
        let k = k.borrow();
        for (c, f) in k.iter() {
            let open = cell == Some(*c) || mon(|m| m.frames.iter().any(|f| f.cell == Some(*c)));
            if !open {
                continue;
            }
            let got = f(None);
            let bad = mon(|m| {
                m.count("kept_target_reads");
                let x = &m.cells[*c];
                let want = Some((x.key, x.val.uid, x.val.rev));
                (got != want && !(x.poisoned && got.is_none())).then(|| (got, want))
            });
            if bad.is_some() {
                return bad;
            }
        }
        None
    });
    if let Some((got, want)) = bad {
        mon(|m| m.fail(C08, format!("a target kept by an earlier trigger gives {got:?}, the operation's target is {want:?}")));
    }
}

/// What is written to the target of an operation that is over reaches nobody.
fn scribble_kept() {
    KEPT.with(|k| {
        for (_, f) in k.borrow().iter() {
            let w = mon(|m| {
                m.count("late_target_writes");
                m.uid()
            });
            f(Some(w));
        }
    });
}

fn check_target<K: Key>(targets: &[&Target<N<K>>], probes: &[&Probe], cell: Option<usize>) {
    check_kept(cell);
    if let Some(t) = targets.first() {
        if mon(|m| m.next_uid % 3 == 0) {
            keep(t, cell);
        }
    }
    for (i, t) in targets.iter().enumerate() {
        let got = t.with(|n| (n.id.index(), n.uid, n.rev));
        mon(|m| {
            let want = cell.map(|c| (m.cells[c].key, m.cells[c].val.uid, m.cells[c].val.rev));
            let poisoned = cell.is_some_and(|c| m.cells[c].poisoned);
            if got != want && !(poisoned && got.is_none()) {
                m.fail(C08, format!("target parameter {i}: trigger got {got:?}, the operation's target is {want:?}"));
            }
            m.count("target_reads");
        });
    }
    for p in probes {
        mon(|m| {
            let want = cell.map(|c| (m.cells[c].val.uid, m.cells[c].val.rev));
            let poisoned = cell.is_some_and(|c| m.cells[c].poisoned);
            if p.target != want && !(poisoned && p.target.is_none()) {
                m.fail(C08, format!("parameter built from a context with target {:?}, the operation's target is {want:?}", p.target));
            }
        });
    }
}

/// The body of every trigger: checks what it observes, then acts as scripted.
fn fire<K: Key>(t: usize, ctx: &Ctx<'_, N<K>>, args: Args<'_, '_, K>) -> Result<()> {
    if dead() {
        return Ok(());
    }
    if !mon(|m| m.enter_trigger(t)) {
        return Ok(());
    }
    let (lvl, cell, kind, phase) = mon(|m| {
        m.count("trigger_runs");
        let nargs = args.targets.len() + args.probes.len() + args.r0.is_some() as usize + args.r1.is_some() as usize;
        m.ev(1, t as u64, nargs as u64);
        m.expected_probes += args.probes.len() as u64;
        let f = m.frames.last().unwrap();
        let (a, b, k, p) = (f.lvl, f.cell, f.kind, f.phase);
        if m.probes != m.expected_probes {
            let (g, w) = (m.probes, m.expected_probes);
            m.fail(C07, format!("trigger #{t}: parameters built {g} times so far, expected {w}"));
        }
        m.note(|| format!("trigger #{t} ({k:?} phase {p}, {nargs} parameters)"));
        (a, b, k, p)
    });
    let opcat = Mon::op_cat(kind) | C07;
    check_target(args.targets, args.probes, cell);
    check_res(args.r0, args.r1);
    let r = fire_actions(t, ctx, &args, lvl, cell, opcat, phase);
    if let Err(e) = &r {
        let e = format!("{e:?}");
        mon(|m| m.frames.last_mut().unwrap().failed = Some(e));
    }
    r
}

fn check_res(r0: Option<&Res<R0>>, r1: Option<&Res<R1>>) {
    if let Some(r) = r0 {
        let got = r.with(|x| x.0);
        mon(|m| {
            if got != m.regs[0] {
                let w = m.regs[0];
                m.fail(C09, format!("resource R0 read as {got:?}, last written {w:?}"));
            }
        });
    }
    if let Some(r) = r1 {
        let got = r.with(|x| x.0);
        mon(|m| {
            if got != m.regs[1] {
                let w = m.regs[1];
                m.fail(C09, format!("resource R1 read as {got:?}, last written {w:?}"));
            }
        });
    }
}

fn fire_actions<K: Key>(
    t: usize,
    ctx: &Ctx<'_, N<K>>,
    args: &Args<'_, '_, K>,
    lvl: usize,
    cell: Option<usize>,
    opcat: u32,
    phase: u8,
) -> Result<()> {
    check_fault()?;
    let (mut rng, n, w, u, nframes, maxf) = mon(|m| {
        let inv = {
            let c = m.invocations.entry(t).or_insert(0);
            *c += 1;
            *c
        };
        let mut r = Rng::new(mix(m.case_seed ^ (t as u64) << 20) ^ inv);
        m.budget -= 1;
        let n = if m.budget <= 0 { 0 } else { r.below(m.actions.max_actions + 1) };
        (r, n, m.actions.w, m.universe, m.frames.len(), m.actions.max_frames)
    });
    for _ in 0..n {
        if dead() {
            return Ok(());
        }
        let k = rng.below(u);
        let mut a = rng.weighted(&w);
        if nframes >= maxf && (a == 5 || a == 6 || a == 13) {
            a = 1;
        }
        match a {
            0 => {}
            1..=6 | 13 => {
                // Everything a trigger does to the graph goes through a subtransaction.
                let l = mon(|m| m.level(Some(lvl)));
                mon(|m| m.levels[l].had |= opcat | C03);
                let commit = a != 4 && !(a == 1 && rng.chance(50));
                let s = mix(rng.u64());
                let r = run_tx::<K, _>(ctx.transaction(), l, C03, |c| {
                    scan(c, l, opcat, if phase == 0 { "before-trigger view" } else { "after-trigger view" });
                    let mut rr = Rng::new(s);
                    let body: Vec<Step> = match a {
                        1 => vec![],
                        2 | 4 => vec![Step::Save(k), Step::Read(k)],
                        3 => vec![Step::Del(k), Step::Read(k)],
                        5 => vec![Step::OpSave { k, catch: rr.chance(30), propagate: rr.chance(50) }],
                        6 => vec![Step::OpDel { k, catch: rr.chance(30), propagate: rr.chance(50) }],
                        _ => vec![Step::Fire { e: 4 + rr.below(4), propagate: rr.chance(50) }],
                    };
                    exec(c, l, &body)?;
                    if commit {
                        Ok(())
                    } else {
                        Err(Error::custom("trigger-sub-rollback"))
                    }
                });
                if let Err(e) = r {
                    if commit && rng.chance(60) {
                        return Err(e);
                    }
                }
            }
            7 | 8 => {
                if let Some(tg) = args.targets.last() {
                    let (rev, newk) = mon(|m| (m.uid(), k));
                    let change_id = a == 8;
                    let ran = tg.with_mut(|n| {
                        n.rev = rev;
                        if change_id {
                            n.id = K::make(newk, rev);
                        }
                    });
                    mon(|m| {
                        m.count("target_rewrites");
                        if ran.is_some() != cell.is_some() && !cell.is_some_and(|c| m.cells[c].poisoned) {
                            m.fail(C08, format!("write access to the target ran={} although target present={}", ran.is_some(), cell.is_some()));
                        }
                        if let (Some(c), Some(())) = (cell, ran) {
                            m.cells[c].val.rev = rev;
                            if change_id {
                                m.cells[c].key = newk;
                            }
                        }
                        m.note(|| format!("rewrites target rev={rev} id={:?}", change_id.then_some(newk)));
                    });
                    check_target(args.targets, &[], cell);
                }
            }
            9 => {
                let v = mon(|m| m.uid());
                if let Some(r) = args.r0 {
                    write_res(0, r.with_mut(|x| x.0 = v).is_some(), v);
                } else if let Some(r) = args.r1 {
                    write_res(1, r.with_mut(|x| x.0 = v).is_some(), v);
                }
                check_res(args.r0, args.r1);
            }
            10 => {
                let e = mon(|m| {
                    m.count("trigger_errors");
                    let u = m.uid();
                    m.note(|| format!("fails with trigger-error-{u}"));
                    if u % 7 == 0 {
                        Error::Noop
                    } else {
                        Error::custom(format!("trigger-error-{u}"))
                    }
                });
                return Err(e);
            }
            11 => {
                mon(|m| {
                    m.count("trigger_panics");
                    m.note(|| "panics".into());
                });
                inject();
            }
            _ => {
                // A trigger that survives its own panic while it holds write access to the target.
                if let Some(tg) = args.targets.first() {
                    let r = catch_unwind(AssertUnwindSafe(|| {
                        tg.with_mut(|_| inject());
                    }));
                    if r.is_err() {
                        mon(|m| {
                            m.count("targets_poisoned");
                            m.note(|| "panics while writing the target and recovers".into());
                            if let Some(c) = cell {
                                m.cells[c].poisoned = true;
                            }
                        });
                    }
                }
            }
        }
    }
    check_fault()
}

fn write_res(i: usize, ran: bool, v: u64) {
    mon(|m| {
        m.count("resource_writes");
        if ran != m.regs[i].is_some() {
            let w = m.regs[i];
            m.fail(C09, format!("write access to R{i} ran={ran}, registered value {w:?}"));
        } else if ran {
            m.regs[i] = Some(v);
        }
    });
}

// ------------------------------------------------------------------ executor

/// Runs `f` as the transaction `tx` over model level `l`; checks that the result is the body's and
/// settles the level. Panics pass through.
fn run_tx<K: Key, Tx: Transaction<Target = N<K>>>(
    tx: Tx,
    l: usize,
    cats: u32,
    f: impl FnOnce(&Context<'_, N<K>>) -> Result<()>,
) -> Result<()> {
    let mut inner: Option<std::result::Result<u64, String>> = None;
    let tag = mon(|m| m.uid());
    let r = tx.with(|ctx| {
        let r = f(&ctx).map(|_| tag);
        inner = Some(r.as_ref().map(|v| *v).map_err(|e| format!("{e:?}")));
        r
    });
    let outer = r.as_ref().map(|v| *v).map_err(|e| format!("{e:?}"));
    settle(l, cats, inner, outer);
    r.map(|_| ())
}

fn settle(l: usize, cats: u32, inner: Option<std::result::Result<u64, String>>, outer: std::result::Result<u64, String>) {
    mon(|m| {
        if m.dead() {
            return;
        }
        match &inner {
            None => m.fail(cats, format!("the transaction body was not run; result {outer:?}")),
            Some(i) if *i != outer => {
                m.fail(cats | C04, format!("the transaction body returned {i:?} but the caller received {outer:?}"))
            }
            Some(Ok(_)) => {
                m.count("commits");
                if m.levels[l].parent.is_some() {
                    m.count("sub_commits");
                }
                m.ev(2, l as u64, 1);
                m.note(|| format!("level {l} commits"));
                m.merge(l);
            }
            Some(Err(_)) => {
                m.count("rollbacks");
                m.ev(2, l as u64, 0);
                m.note(|| format!("level {l} fails"));
            }
        }
        if let Some(p) = m.levels[l].parent {
            let had = m.levels[l].had | C03;
            m.mark(Some(p), had);
        }
    });
}

fn unexpected(p: Box<dyn Any + Send>) {
    if !p.is::<Injected>() {
        let msg = vcommon::last_panic();
        mon(|m| m.fail(ALL, format!("unexpected panic: {msg}")));
    }
}

fn read_one<K: Key>(ctx: &Context<'_, N<K>>, l: usize, k: usize, extra: u32, what: &str) {
    let variant = mon(|m| m.next_uid.wrapping_mul(k as u64 + 3));
    let id = K::make(k, variant);
    let got = ctx.get(&id).map(|n| (n.uid, n.rev, n.id.index()));
    let has = ctx.contains(&id);
    let proxy = ctx.node(K::make(k, variant >> 3));
    let virt = proxy.is_virtual();
    let via = proxy.try_deref().map(|n| (n.uid, n.rev, n.id.index()));
    mon(|m| {
        m.count("reads");
        let want = m.get(Some(l), k).map(|v| (v.uid, v.rev, k));
        m.ev(3, k as u64, want.map(|w| w.0).unwrap_or(0));
        let cats = C02 | m.levels[l].had | extra;
        let at = m.levels[l].depth;
        if got != want {
            m.fail(cats, format!("{what}, depth {at}: lookup of id {k} gave (uid,rev,id) {got:?}, expected {want:?}"));
        } else if has != want.is_some() {
            m.fail(cats, format!("{what}, depth {at}: id {k} exists={has}, but lookup gives {got:?}"));
        } else if virt == has {
            m.fail(cats | C11, format!("{what}, depth {at}: handle of id {k} virtual={virt}, exists={has}"));
        } else if via != want {
            m.fail(cats | C11, format!("{what}, depth {at}: handle of id {k} dereferences to {via:?}, expected {want:?}"));
        }
    });
}

fn scan<K: Key>(ctx: &Context<'_, N<K>>, l: usize, extra: u32, what: &str) {
    let (u, skip) = mon(|m| (m.universe, m.next_uid as usize));
    if u <= 16 {
        for k in 0..u {
            read_one(ctx, l, k, extra, what);
        }
    } else {
        for i in 0..12 {
            read_one(ctx, l, (skip.wrapping_mul(7) + i * 5) % u, extra, what);
        }
    }
}

struct PModel {
    k: usize,
    cached: Option<Option<Val>>,
}

/// The monitor's frame stack must come back to where it was when control leaves by unwinding.
fn frames_len() -> usize {
    mon(|m| m.frames.len())
}
fn frames_truncate(n: usize) {
    mon(|m| m.frames.truncate(n));
}

pub fn exec<K: Key>(ctx: &Context<'_, N<K>>, l: usize, steps: &[Step]) -> Result<()> {
    let mut proxies: Vec<(NodeProxy<'_, Context<'_, N<K>>>, PModel)> = vec![];
    let u = mon(|m| m.universe);
    for st in steps {
        if dead() {
            return Ok(());
        }
        check_fault()?;
        mon(|m| m.count("steps"));
        match st {
            Step::Read(k) => read_one(ctx, l, *k % u, 0, "read"),
            Step::Scan => scan(ctx, l, 0, "scan"),
            Step::Save(k) => {
                let k = *k % u;
                let uid = mon(|m| m.uid());
                ctx.save(Node::new(k, uid, uid, 0, u));
                mon(|m| {
                    m.set(l, k, Some(Val { uid, rev: 0 }));
                    m.count("saves");
                    m.ev(4, k as u64, uid);
                    m.note(|| format!("save id {k} uid {uid} at level {l}"));
                });
            }
            Step::Del(k) => {
                let k = *k % u;
                let v = mon(|m| m.uid());
                ctx.delete(K::make(k, v));
                mon(|m| {
                    m.set(l, k, None);
                    m.count("deletes");
                    m.ev(5, k as u64, 0);
                    m.note(|| format!("delete id {k} at level {l}"));
                });
            }
            Step::OpSave { k, catch, propagate } => {
                let r = op::<K, _>(ctx.transaction(), Some(l), Kind::Save, *k % u, *catch);
                scan(ctx, l, C05, "after save operation");
                if let (Err(e), true) = (r, *propagate) {
                    return Err(e);
                }
            }
            Step::OpDel { k, catch, propagate } => {
                let r = op::<K, _>(ctx.transaction(), Some(l), Kind::Del, *k % u, *catch);
                scan(ctx, l, C06, "after delete operation");
                if let (Err(e), true) = (r, *propagate) {
                    return Err(e);
                }
            }
            Step::Sub(s) => {
                let nl = mon(|m| m.level(Some(l)));
                let r = sub(ctx.transaction(), nl, s);
                scan(ctx, l, C03, "after subtransaction");
                if let (Err(e), true) = (r, s.propagate) {
                    return Err(e);
                }
            }
            Step::Sibs { subs, parent, order } => siblings(ctx, l, subs, parent, *order)?,
            Step::Fire { e, propagate } => {
                let cell = mon(|m| m.levels[l].cell);
                let n0 = frames_len();
                mon(|m| {
                    let list = m.events[*e].clone();
                    m.count("events_fired");
                    m.frames.push(Frame { kind: Kind::Fire, lvl: l, cell, key: 0, before: list, after: vec![], pos: 0, phase: 0, failed: None, ran: 0 });
                });
                let r = fire_event(ctx, *e);
                finish_fire(&r);
                frames_truncate(n0);
                scan(ctx, l, C07, "after event");
                if let (Err(e), true) = (r, *propagate) {
                    return Err(e);
                }
            }
            Step::Target { write } => {
                let cell = mon(|m| m.levels[l].cell);
                check_target(&[ctx.target()], &[], cell);
                let own: Target<N<K>> = Target::from(ctx);
                check_target(&[&own], &[], cell);
                if *write {
                    let rev = mon(|m| m.uid());
                    let ran = own.with_mut(|n| n.rev = rev);
                    mon(|m| {
                        if let (Some(c), Some(())) = (cell, ran) {
                            m.cells[c].val.rev = rev;
                        } else if cell.is_some() && !m.cells[cell.unwrap()].poisoned || ran.is_some() {
                            m.fail(C08, "write access to the context's target is wrong");
                        }
                    });
                    check_target(&[ctx.target(), &own], &[], cell);
                }
            }
            Step::Res { r, write } => {
                let v = mon(|m| m.uid());
                let (a, b): (Res<R0>, Res<R1>) = (Res::from(ctx), Res::from(ctx.resources()));
                check_res(Some(&a), Some(&b));
                if *write {
                    if *r == 0 {
                        write_res(0, a.with_mut(|x| x.0 = v).is_some(), v);
                    } else {
                        write_res(1, b.with_mut(|x| x.0 = v).is_some(), v);
                    }
                    check_res(Some(&a), Some(&b));
                }
            }
            Step::Proxy(k) => {
                let k = *k % u;
                let v = mon(|m| m.uid());
                proxies.push((ctx.node(K::make(k, v)), PModel { k, cached: None }));
            }
            Step::ProxyUse { i, what } => {
                if proxies.is_empty() {
                    continue;
                }
                let i = *i % proxies.len();
                proxy_use(&mut proxies, i, *what, l, u);
            }
            Step::Bulk { n, seed } => bulk(ctx, l, *n, *seed, u),
        }
    }
    for i in 0..proxies.len() {
        if !dead() {
            proxy_use(&mut proxies, i, 0, l, u);
        }
    }
    check_fault()
}

fn finish_fire(r: &Result<()>) {
    mon(|m| {
        if m.dead() {
            return;
        }
        match r {
            Ok(()) => m.op_succeeded(),
            Err(e) => {
                let e = format!("{e:?}");
                let want = m.frames.last().unwrap().failed.clone();
                if want.as_ref() != Some(&e) {
                    m.fail(C07, format!("the event returned {e}, the failing trigger returned {want:?}"));
                }
            }
        }
    });
}

fn proxy_use<'a, K: Key>(
    ps: &mut Vec<(NodeProxy<'a, Context<'a, N<K>>>, PModel)>,
    i: usize,
    what: u8,
    l: usize,
    u: usize,
) {
    let k = ps[i].1.k;
    match what {
        1 => {
            let virt = ps[i].0.is_virtual();
            mon(|m| {
                m.count("handle_uses");
                let want = m.get(Some(l), k).is_none();
                if virt != want {
                    m.fail(C11 | C02, format!("handle of id {k}: virtual={virt}, expected {want}"));
                }
            });
        }
        2 => {
            if ps.len() < 24 {
                let c = ps[i].0.clone();
                let pm = PModel { k, cached: ps[i].1.cached };
                if c.id().index() != k {
                    mon(|m| m.fail(C11, "a copied handle has another id"));
                }
                ps.push((c, pm));
            }
        }
        w => {
            let got = ps[i].0.try_deref().map(|n| (n.uid, n.rev, n.id.index()));
            let cached = ps[i].1.cached;
            let want = mon(|m| cached.unwrap_or_else(|| m.get(Some(l), k)));
            ps[i].1.cached = Some(want);
            mon(|m| {
                m.count("handle_uses");
                let want = want.map(|v| (v.uid, v.rev, k));
                if got != want {
                    m.fail(C11 | if cached.is_none() { C02 } else { 0 }, format!("handle of id {k} (dereferenced before: {}) gives {got:?}, expected {want:?}", cached.is_some()));
                }
            });
            if w == 3 && !dead() {
                let succ = ps[i].0.successors::<Edge<K>>();
                let ids: Vec<usize> = succ.iter().map(|s| s.id.index()).collect();
                let expect = want.map(|v| edges_of(v.uid, u)).unwrap_or_default();
                mon(|m| {
                    m.count("successor_lists");
                    if ids != expect {
                        m.fail(C11, format!("successors of id {k} are {ids:?}, its node's edges are {expect:?}"));
                    }
                });
                for s in succ {
                    let k2 = s.id.index();
                    let got = s.try_deref().map(|n| (n.uid, n.rev));
                    mon(|m| {
                        let want = m.get(Some(l), k2).map(|v| (v.uid, v.rev));
                        if got != want {
                            m.fail(C11, format!("successor {k2} of id {k} dereferences to {got:?}, its source holds {want:?}"));
                        }
                    });
                }
            }
        }
    }
}

fn bulk<K: Key>(ctx: &Context<'_, N<K>>, l: usize, n: usize, seed: u64, u: usize) {
    let mut r = Rng::new(seed);
    let dense = r.chance(50);
    for i in 0..n {
        let k = if dense { r.below(u) } else { i % u };
        if r.chance(65) {
            let uid = mon(|m| m.uid());
            ctx.save(Node::new(k, uid, uid, 0, u));
            mon(|m| {
                m.set(l, k, Some(Val { uid, rev: 0 }));
                m.count("saves");
            });
        } else {
            ctx.delete(K::make(k, r.u64()));
            mon(|m| {
                m.set(l, k, None);
                m.count("deletes");
            });
        }
        if r.chance(4) {
            read_one(ctx, l, r.below(u), 0, "bulk read");
        }
        if dead() {
            return;
        }
    }
    mon(|m| {
        m.count("bulk_bodies");
        if n > 4000 {
            m.count(if m.levels[l].depth > 0 { "bodies_over_4000_below" } else { "bodies_over_4000" });
        }
        let x = n as u64;
        let e = m.counters.entry("max_ops_in_one_transaction").or_insert(0);
        *e = (*e).max(x);
    });
    for k in 0..u {
        read_one(ctx, l, k, 0, "after bulk");
    }
}

fn closure_body<K: Key>(c: &Context<'_, N<K>>, l: usize, body: &[Step], end: &End) -> Result<()> {
    exec(c, l, body)?;
    if dead() {
        return Ok(());
    }
    match end {
        End::Ok => Ok(()),
        End::Err => Err(mon(|m| {
            let u = m.uid();
            if u % 11 == 0 { Error::Noop } else { Error::custom(format!("rollback-{u} \"quoted\" {{}}\n")) }
        })),
        _ => inject(),
    }
}

/// Gives a context its target in the model, and a node to hand to the real one.
fn new_target<K: Key>(l: usize, k: usize, u: usize) -> N<K> {
    mon(|m| {
        let uid = m.uid();
        m.cells.push(Cell { key: k, val: Val { uid, rev: 0 }, poisoned: false });
        m.levels[l].cell = Some(m.cells.len() - 1);
        Node::new(k, uid, uid, 0, u)
    })
}

fn sub<K: Key>(fg: Foreground<'_, N<K>>, l: usize, s: &Sub) -> Result<()> {
    for pre in &s.pre {
        let c = Context::from(&fg);
        let _ = exec(&c, l, pre);
    }
    finish_sub(fg, l, s)
}

fn finish_sub<K: Key>(fg: Foreground<'_, N<K>>, l: usize, s: &Sub) -> Result<()> {
    if s.end == End::Drop {
        drop(fg);
        mon(|m| {
            m.count("abandoned");
            m.note(|| format!("level {l} abandoned"));
            if let Some(p) = m.levels[l].parent {
                m.mark(Some(p), C03);
            }
        });
        return Ok(());
    }
    let u = mon(|m| m.universe);
    let n0 = frames_len();
    let r = catch_unwind(AssertUnwindSafe(|| match s.target {
        None => run_tx::<K, _>(fg, l, C03, |c| closure_body(c, l, &s.body, &s.end)),
        Some(k) => {
            let mut inner = None;
            let tag = mon(|m| m.uid());
            let r = fg.with(|ctx| {
                let ctx = ctx.with_target(new_target(l, k % u, u));
                let r = closure_body(&ctx, l, &s.body, &s.end).map(|_| tag);
                inner = Some(r.as_ref().map(|v| *v).map_err(|e| format!("{e:?}")));
                r
            });
            let outer = r.as_ref().map(|v| *v).map_err(|e| format!("{e:?}"));
            settle(l, C03, inner, outer);
            r.map(|_| ())
        }
    }));
    match r {
        Ok(r) => r,
        Err(p) => {
            frames_truncate(n0);
            mon(|m| {
                m.count("sub_panics");
                if let Some(pl) = m.levels[l].parent {
                    let had = m.levels[l].had | C03;
                    m.mark(Some(pl), had);
                }
            });
            if p.is::<Injected>() && !s.catch && !dead() {
                resume_unwind(p);
            }
            unexpected(p);
            Ok(())
        }
    }
}

fn siblings<K: Key>(ctx: &Context<'_, N<K>>, l: usize, subs: &[Sub], parent: &[Vec<Step>], order: u64) -> Result<()> {
    let mut r = Rng::new(order);
    let fgs: Vec<Foreground<'_, N<K>>> = subs.iter().map(|_| ctx.transaction()).collect();
    let lv: Vec<usize> = subs.iter().map(|_| mon(|m| m.level(Some(l)))).collect();
    mon(|m| m.count("sibling_groups"));
    let mut pi = 0;
    {
        let ctxs: Vec<Context<'_, N<K>>> = fgs.iter().map(Context::from).collect();
        // (sibling, segment) in a random interleaving that keeps each sibling's order.
        let mut left: Vec<usize> = subs.iter().map(|s| s.pre.len()).collect();
        while left.iter().any(|n| *n > 0) && !dead() {
            if pi < parent.len() && r.chance(30) {
                exec(ctx, l, &parent[pi])?;
                pi += 1;
            } else {
                let open: Vec<usize> = (0..subs.len()).filter(|i| left[*i] > 0).collect();
                let i = *r.pick(&open);
                let seg = subs[i].pre.len() - left[i];
                left[i] -= 1;
                let _ = exec(&ctxs[i], lv[i], &subs[i].pre[seg]);
            }
            // Every open context must still see exactly its own changes and its ancestors'.
            if subs.iter().any(|s| s.cross) {
                for j in 0..subs.len() {
                    scan(&ctxs[j], lv[j], C03, "open sibling");
                }
                scan(ctx, l, C03, "parent of open siblings");
            }
        }
    }
    let mut idx: Vec<usize> = (0..subs.len()).collect();
    r.shuffle(&mut idx);
    let mut fgs: Vec<Option<Foreground<'_, N<K>>>> = fgs.into_iter().map(Some).collect();
    for i in idx {
        let res = finish_sub(fgs[i].take().unwrap(), lv[i], &subs[i]);
        if dead() {
            return Ok(());
        }
        scan(ctx, l, C03, "after a sibling ended");
        if pi < parent.len() {
            exec(ctx, l, &parent[pi])?;
            pi += 1;
        }
        if let (Err(e), true) = (res, subs[i].propagate) {
            return Err(e);
        }
    }
    Ok(())
}

/// Runs a save or delete operation in `tx`, whose parent is level `parent` (None: the graph).
fn op<K: Key, Tx: Transaction<Target = N<K>>>(tx: Tx, parent: Option<usize>, kind: Kind, k: usize, catch: bool) -> Result<()> {
    let n0 = frames_len();
    let cat = Mon::op_cat(kind);
    let (l, uid, u, exists) = mon(|m| {
        let l = m.level(parent);
        m.levels[l].had |= cat;
        let uid = m.uid();
        let existing = m.get(parent, k);
        let cell = match kind {
            Kind::Save => Some(Cell { key: k, val: Val { uid, rev: 0 }, poisoned: false }),
            _ => existing.map(|v| Cell { key: k, val: v, poisoned: false }),
        };
        let cell = cell.map(|c| {
            m.cells.push(c);
            m.cells.len() - 1
        });
        let (b, a) = if kind == Kind::Save { (0, 1) } else { (2, 3) };
        let (before, after) = (m.events[b].clone(), m.events[a].clone());
        m.frames.push(Frame { kind, lvl: l, cell, key: k, before, after, pos: 0, phase: 0, failed: None, ran: 0 });
        m.ev(6, k as u64, (kind == Kind::Save) as u64);
        m.note(|| format!("{kind:?} operation on id {k} uid {uid} (exists: {existing:?})"));
        (l, uid, m.universe, existing.is_some())
    });
    let r = catch_unwind(AssertUnwindSafe(|| match kind {
        Kind::Save => Save::new(Node::<K>::new(k, uid, uid, 0, u)).execute(tx),
        _ => Delete::<N<K>>::new(K::make(k, uid)).execute(tx),
    }));
    mon(|m| m.mark(parent, cat | C03));
    let out = match r {
        Ok(r) => {
            mon(|m| {
                if m.dead() {
                    return;
                }
                m.count(match (kind, r.is_ok()) {
                    (Kind::Save, true) => "save_ops_ok",
                    (Kind::Save, false) => "save_ops_failed",
                    (_, true) => "delete_ops_ok",
                    (_, false) => "delete_ops_failed",
                });
                let f = m.frames.last().unwrap();
                let (failed, ran, poisoned) = (f.failed.clone(), f.ran, f.cell.is_some_and(|c| m.cells[c].poisoned));
                let before_done = f.phase == 0 && f.pos == f.before.len();
                if kind == Kind::Del && !exists {
                    if ran > 0 {
                        m.fail(cat, "triggers ran for the deletion of an absent id");
                    }
                    match &r {
                        Err(Error::Noop) => {}
                        other => m.fail(cat, format!("deletion of absent id {k} returned {other:?} instead of the no-effect error")),
                    }
                    return;
                }
                match &r {
                    Ok(()) => {
                        m.op_succeeded();
                        m.merge(l);
                    }
                    Err(e) => {
                        let e = format!("{e:?}");
                        if failed.as_ref() != Some(&e) && !(poisoned && failed.is_none() && before_done && kind == Kind::Save) {
                            m.fail(cat | C04, format!("{kind:?} of id {k} returned error {e}; the failing trigger's error was {failed:?}"));
                        }
                    }
                }
            });
            r
        }
        Err(p) => {
            frames_truncate(n0);
            mon(|m| m.count("op_panics"));
            if p.is::<Injected>() && !catch && !dead() {
                resume_unwind(p);
            }
            unexpected(p);
            return Ok(());
        }
    };
    frames_truncate(n0);
    out
}

// ------------------------------------------------------------------ top level

pub struct World<K: Key> {
    pub schema: Schema<N<K>>,
}

pub fn build<K: Key>(p: &Prog) -> World<K> {
    let u = p.universe;
    let mut g = Graph::default();
    for (i, k) in p.init.iter().enumerate() {
        let uid = mon(|m| m.uid());
        let n = Node::new(*k, uid, uid, 0, u);
        mon(|m| m.base.insert(*k, Val { uid, rev: 0 }));
        if i % 2 == 0 {
            g.insert(n);
        } else {
            g = g.with_node(n);
        }
    }
    let mut s: Schema<N<K>> = Schema::from(g);
    if p.regs[0] {
        let v = mon(|m| {
            let v = m.uid();
            m.regs[0] = Some(v);
            v
        });
        s = s.with_resource(R0(v));
    }
    let mut r1 = if p.regs[1] {
        let v = mon(|m| {
            let v = m.uid();
            m.regs[1] = Some(v);
            v
        });
        Some(R1(v))
    } else {
        None
    };
    let mut i = 0;
    while i < p.triggers.len() {
        let (e, shape, plug) = p.triggers[i];
        mon(|m| m.events[e].push(i));
        if plug {
            let mut list = vec![(e, shape, i)];
            while i + 1 < p.triggers.len() && p.triggers[i + 1].2 && list.len() < 3 {
                i += 1;
                let (e, shape, _) = p.triggers[i];
                mon(|m| m.events[e].push(i));
                list.push((e, shape, i));
            }
            s = s.install(Bundle { triggers: list, r1: r1.take() });
        } else {
            s = register(s, e, shape, i);
        }
        i += 1;
    }
    if let Some(r) = r1 {
        s = s.with_resource(r);
    }
    World { schema: s }
}

/// Full comparison of the committed graph with the model, at a quiescent point.
pub fn compare<K: Key>(s: &Schema<N<K>>, cats: u32, when: &str) {
    if dead() {
        forget_kept();
        return;
    }
    if mon(|m| m.frames.is_empty() && m.next_uid % 2 == 0) {
        scribble_kept();
    }
    let g = s.read();
    let mut got: Vec<(usize, u64, u64)> = vec![];
    let mut last: Option<K> = None;
    for n in &*g {
        if let Some(p) = &last {
            if *p >= n.id {
                mon(|m| m.fail(cats, format!("{when}: iteration is not in ascending id order")));
            }
        }
        last = Some(n.id.clone());
        got.push((n.id.index(), n.uid, n.rev));
    }
    got.sort();
    mon(|m| {
        m.count("full_compares");
        let want: Vec<(usize, u64, u64)> = m.base.iter().map(|(k, v)| (*k, v.uid, v.rev)).collect();
        for (k, u, r) in &got {
            m.ev(7, *k as u64, u ^ r);
        }
        if got != want {
            let d1: Vec<_> = got.iter().filter(|x| !want.contains(x)).take(5).collect();
            let d2: Vec<_> = want.iter().filter(|x| !got.contains(x)).take(5).collect();
            m.fail(cats, format!("{when}: the graph holds (id,uid,rev) {d1:?} not expected, and lacks {d2:?}"));
        }
    });
    drop(g);
    if dead() {
        return;
    }
    // Everything else alive must have been released.
    forget_kept();
    let alive = live();
    mon(|m| {
        let n = m.base.len() as i64;
        if alive != n {
            m.fail(C19, format!("{when}: {alive} node values alive, the graph holds {n}"));
        }
        m.count("leak_checks");
    });
}

pub fn run_top<K: Key>(s: &Schema<N<K>>, t: &Top, idx: usize) {
    let u = mon(|m| m.universe);
    mon(|m| {
        m.count("top_level_operations");
        m.note(|| format!("-- top level {idx}"));
    });
    let n0 = frames_len();
    let mut cats = C01;
    match t {
        Top::Tx { pre, body, end, idle } => {
            let spare = idle.then(|| s.transaction());
            let bg = s.transaction();
            let l = mon(|m| m.level(None));
            if *idle {
                // A transaction that exists but does not run must not block anything.
                let n = (&*s.read()).into_iter().count();
                mon(|m| {
                    if n != m.base.len() {
                        m.fail(C01 | C04, "read with idle transactions differs");
                    }
                });
            }
            let r = catch_unwind(AssertUnwindSafe(|| {
                if !pre.is_empty() {
                    let c = Context::from(&bg);
                    let _ = exec(&c, l, pre);
                }
                if *end == End::Drop {
                    let c = Context::from(&bg);
                    let _ = exec(&c, l, body);
                    drop(c);
                    drop(bg);
                    mon(|m| m.count("abandoned"));
                    return Err(Error::Noop);
                }
                run_tx::<K, _>(bg, l, C01, |c| closure_body(c, l, body, end))
            }));
            cats |= mon(|m| m.levels[l].had);
            match r {
                Ok(Ok(())) => {}
                Ok(Err(_)) => cats |= C04,
                Err(p) => {
                    cats |= C04;
                    frames_truncate(n0);
                    mon(|m| m.count("top_panics"));
                    unexpected(p);
                }
            }
            drop(spare);
        }
        Top::OpSave(k) | Top::OpDel(k) => {
            let kind = if matches!(t, Top::OpSave(_)) { Kind::Save } else { Kind::Del };
            let r = op::<K, _>(s.transaction(), None, kind, *k % u, true);
            cats |= Mon::op_cat(kind);
            if r.is_err() {
                cats |= C04;
            }
        }
        Top::Write { ops, panic } => {
            let r = catch_unwind(AssertUnwindSafe(|| {
                let mut g = s.write();
                for (k, save) in ops {
                    let k = *k % u;
                    if *save {
                        let uid = mon(|m| m.uid());
                        g.insert(Node::new(k, uid, uid, 0, u));
                        mon(|m| m.base.insert(k, Val { uid, rev: 0 }));
                    } else {
                        g.remove(&K::make(k, 5));
                        mon(|m| m.base.remove(&k));
                    }
                }
                if *panic {
                    inject()
                }
            }));
            if let Err(p) = r {
                cats |= C04;
                unexpected(p);
            }
        }
        Top::Read => {}
    }
    compare(s, cats, "after top-level operation");
}
