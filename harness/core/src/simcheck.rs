//! The checks decided by the schema simulator: C01..C08, C19 (and the schema part of C09, C11).

use std::panic::{catch_unwind, AssertUnwindSafe};

use vcommon::{Case, Tier, Violation};

use crate::keys::{Ci, Key, Rev};
use crate::mon::*;
use crate::node;
use crate::sim::*;

fn with_key<R>(key: usize, f: &dyn KeyDyn<R>) -> R {
    match key {
        0 => f.u32(),
        1 => f.string(),
        2 => f.rev(),
        _ => f.ci(),
    }
}
trait KeyDyn<R> {
    fn u32(&self) -> R;
    fn string(&self) -> R;
    fn rev(&self) -> R;
    fn ci(&self) -> R;
}
struct Plain<'a>(&'a Prog);
impl KeyDyn<()> for Plain<'_> {
    fn u32(&self) {
        plain::<u32>(self.0)
    }
    fn string(&self) {
        plain::<String>(self.0)
    }
    fn rev(&self) {
        plain::<Rev>(self.0)
    }
    fn ci(&self) {
        plain::<Ci>(self.0)
    }
}

fn plain<K: Key>(p: &Prog) {
    let w = build::<K>(p);
    compare(&w.schema, C01, "initially");
    for (i, t) in p.tops.iter().enumerate() {
        if dead() {
            break;
        }
        run_top(&w.schema, t, i);
    }
    finish(w);
}

fn finish<K: Key>(w: World<K>) {
    drop(w);
    forget_kept();
    let alive = node::live();
    mon(|m| {
        if !m.dead() && alive != 0 {
            m.fail(C19, format!("{alive} node values alive after the schema was dropped"));
        }
    });
}

pub fn run_prog(p: &Prog, prof: &Profile, verbose: bool) -> Mon {
    forget_kept();
    node::reset_live();
    node::on_clone(None);
    let mut m = Mon::new(p.universe, p.seed);
    m.actions = prof.actions;
    m.verbose = verbose;
    m.focus = prof.focus;
    install(m);
    let r = catch_unwind(AssertUnwindSafe(|| with_key(p.key, &Plain(p))));
    if r.is_err() {
        let msg = vcommon::last_panic();
        mon(|m| m.fail(ALL, format!("unexpected panic: {msg}")));
    }
    take()
}

// ------------------------------------------------------------------ fault enumeration (C04)

struct Faulty<'a>(&'a Prog);
impl KeyDyn<()> for Faulty<'_> {
    fn u32(&self) {
        faulty::<u32>(self.0)
    }
    fn string(&self) {
        faulty::<String>(self.0)
    }
    fn rev(&self) {
        faulty::<Rev>(self.0)
    }
    fn ci(&self) {
        faulty::<Ci>(self.0)
    }
}

/// Runs the set-up, then the last top-level operation with the armed fault, then uses the schema
/// again: read, write, the same operation without fault, a plain transaction.
fn faulty<K: Key>(p: &Prog) {
    let w = build::<K>(p);
    let (victim, setup) = p.tops.split_last().unwrap();
    for (i, t) in setup.iter().enumerate() {
        if dead() {
            return;
        }
        run_top(&w.schema, t, i);
    }
    if dead() {
        return;
    }
    mon(|m| m.faults_on = true);
    node::on_clone(Some(clone_fault));
    // `compare` at the end of run_top iterates without cloning nodes, so faults stay inside.
    run_top(&w.schema, victim, setup.len());
    node::on_clone(None);
    let fired = mon(|m| {
        m.faults_on = false;
        m.after_failure = m.fault_fired;
        m.fault_fired
    });
    if fired && !dead() {
        let after = [
            Top::Read,
            Top::Write { ops: vec![(0, true), (1, false)], panic: false },
            victim.clone(),
            Top::Tx { pre: vec![], body: vec![Step::Save(0), Step::Scan, Step::Del(1), Step::Scan], end: End::Ok, idle: true },
            Top::OpSave(0),
            Top::OpDel(0),
        ];
        for (i, t) in after.iter().enumerate() {
            if dead() {
                break;
            }
            run_top(&w.schema, t, 100 + i);
            mon(|m| m.count("uses_after_failure"));
        }
    }
    finish(w);
}

pub fn run_faulty(p: &Prog, prof: &Profile, at: Option<(u64, FaultKind)>, verbose: bool) -> Mon {
    forget_kept();
    node::reset_live();
    let mut m = Mon::new(p.universe, p.seed);
    m.actions = prof.actions;
    m.verbose = verbose;
    m.focus = prof.focus;
    m.fault_at = at;
    install(m);
    let r = catch_unwind(AssertUnwindSafe(|| with_key(p.key, &Faulty(p))));
    node::on_clone(None);
    if r.is_err() {
        let msg = vcommon::last_panic();
        mon(|m| m.fail(ALL, format!("unexpected panic: {msg}")));
    }
    take()
}

// ------------------------------------------------------------------ shrinking

/// Counts down to the edit that is wanted.
fn due(n: &mut usize) -> bool {
    if *n == 0 {
        return true;
    }
    *n -= 1;
    false
}

/// Makes the n-th simplification of the steps; false if there are fewer.
fn edit_steps(v: &mut Vec<Step>, n: &mut usize) -> bool {
    let half = v.len() / 2;
    if v.len() > 3 {
        if due(n) {
            v.truncate(half);
            return true;
        }
        if due(n) {
            v.drain(..half);
            return true;
        }
    }
    if *n < v.len() {
        v.remove(*n);
        return true;
    }
    *n -= v.len();
    for s in v.iter_mut() {
        match s {
            Step::Sub(s) => {
                if edit_sub(s, n) {
                    return true;
                }
            }
            Step::Sibs { subs, parent, .. } => {
                if *n < subs.len() {
                    subs.remove(*n);
                    return true;
                }
                *n -= subs.len();
                if subs.iter_mut().any(|s| edit_sub(s, n)) {
                    return true;
                }
                if !parent.is_empty() && due(n) {
                    parent.clear();
                    return true;
                }
            }
            Step::Bulk { n: size, .. } if *size > 1 => {
                if due(n) {
                    *size /= 2;
                    return true;
                }
                if due(n) {
                    *size -= 1;
                    return true;
                }
            }
            _ => {}
        }
    }
    false
}

fn edit_sub(s: &mut Sub, n: &mut usize) -> bool {
    if edit_steps(&mut s.body, n) || s.pre.iter_mut().any(|p| edit_steps(p, n)) {
        return true;
    }
    if !s.pre.is_empty() && due(n) {
        s.pre.clear();
        return true;
    }
    if s.target.is_some() && due(n) {
        s.target = None;
        return true;
    }
    false
}

fn edit_prog(p: &mut Prog, n: &mut usize, keep_last: bool) -> bool {
    let last = p.tops.len() - keep_last as usize;
    if p.tops.len() > 1 {
        if last > 3 {
            if due(n) {
                p.tops.drain(..last / 2);
                return true;
            }
            if due(n) {
                p.tops.drain(last / 2..last);
                return true;
            }
        }
        if *n < last {
            p.tops.remove(*n);
            return true;
        }
        *n -= last;
    }
    if *n < p.triggers.len() {
        p.triggers.remove(*n);
        return true;
    }
    *n -= p.triggers.len();
    if p.init.len() > 3 {
        let half = p.init.len() / 2;
        if due(n) {
            p.init.truncate(half);
            return true;
        }
        if due(n) {
            p.init.drain(..half);
            return true;
        }
    }
    if *n < p.init.len() {
        p.init.remove(*n);
        return true;
    }
    *n -= p.init.len();
    for t in &mut p.tops {
        if let Top::Tx { pre, body, .. } = t {
            if edit_steps(body, n) {
                return true;
            }
            if !pre.is_empty() && due(n) {
                pre.clear();
                return true;
            }
        }
    }
    false
}

pub fn shrink(p: &Prog, fails: &dyn Fn(&Prog) -> bool, keep_last: bool) -> Prog {
    let mut cur = p.clone();
    let mut evals = 0;
    let start = std::time::Instant::now();
    loop {
        let (mut at, mut better) = (0, false);
        loop {
            evals += 1;
            if evals > 6000 || start.elapsed().as_secs() > 8 {
                return cur;
            }
            let mut q = cur.clone();
            if !edit_prog(&mut q, &mut at.clone(), keep_last) {
                break;
            }
            if fails(&q) {
                cur = q;
                better = true;
            } else {
                at += 1;
            }
        }
        if !better {
            return cur;
        }
    }
}

// ------------------------------------------------------------------ checks

fn account(case: &mut Case, m: &Mon) {
    if m.foreign > 0 {
        case.count("foreign_mismatches", m.foreign);
    }
    for (k, v) in &m.counters {
        if k.starts_with("max_") {
            case.max(k, *v);
        } else {
            case.count(k, *v);
        }
    }
    case.mixh(m.hash);
}

pub fn check_plain(case: &mut Case, prof: &Profile) -> Result<(), Violation> {
    let p = gen_prog(case.seed, prof);
    let m = run_prog(&p, prof, false);
    account(case, &m);
    case.nontrivial = m.counters.get("steps").copied().unwrap_or(0) >= 2 || m.counters.get("trigger_runs").is_some();
    if case.idx < 12 {
        case.sample = Some(show(&p));
    }
    if let Some((cats, msg)) = &m.mismatch {
        if cats & prof.focus == 0 {
            case.count("foreign_mismatches", 1);
            return Ok(());
        }
        let q = shrink(&p, &|q| run_prog(q, prof, false).mismatch.is_some_and(|(c, _)| c & prof.focus != 0), false);
        let v = run_prog(&q, prof, true);
        let msg2 = v.mismatch.as_ref().map(|x| x.1.clone()).unwrap_or_else(|| msg.clone());
        return Err(Violation::new(msg2, format!("{}\n--- run\n{}", show(&q), v.log.join("\n"))));
    }
    Ok(())
}

pub fn check_faults(case: &mut Case, prof: &Profile) -> Result<(), Violation> {
    let p = gen_prog(case.seed, prof);
    let dry = run_faulty(&p, prof, None, false);
    account(case, &dry);
    if case.idx < 12 {
        case.sample = Some(show(&p));
    }
    let report = |at: Option<(u64, FaultKind)>, m: &Mon| -> Option<Violation> {
        let (cats, msg) = m.mismatch.as_ref()?;
        if cats & prof.focus == 0 {
            return None;
        }
        let fails = |q: &Prog| run_faulty(q, prof, at, false).mismatch.is_some_and(|(c, _)| c & prof.focus != 0);
        let q = shrink(&p, &fails, true);
        let v = run_faulty(&q, prof, at, true);
        let msg2 = v.mismatch.as_ref().map(|x| x.1.clone()).unwrap_or_else(|| msg.clone());
        Some(Violation::new(format!("{msg2} [fault {at:?}]"), format!("fault point {at:?} of the last operation\n{}\n--- run\n{}", show(&q), v.log.join("\n"))))
    };
    if dry.mismatch.is_some() {
        return match report(None, &dry) {
            Some(v) => Err(v),
            None => {
                case.count("foreign_mismatches", 1);
                Ok(())
            }
        };
    }
    let points = dry.fault_count;
    case.count("fault_points", points);
    case.nontrivial = points >= 2;
    let limit = match case.tier {
        _ if case.light => 10,
        Tier::Quick => 60,
        Tier::Thorough => 400,
    };
    let stride = (points / limit).max(1);
    let mut i = 1;
    while i <= points {
        for kind in [FaultKind::Err, FaultKind::Panic] {
            let at = Some((i, kind));
            let m = run_faulty(&p, prof, at, false);
            account(case, &m);
            case.count("faulted_runs", 1);
            if m.mismatch.is_some() {
                match report(at, &m) {
                    Some(v) => return Err(v),
                    None => {
                        case.count("foreign_mismatches", 1);
                        return Ok(());
                    }
                }
            }
        }
        i += stride;
    }
    Ok(())
}

pub fn describe_plain(case: &Case, prof: &Profile) -> String {
    show(&gen_prog(case.seed, prof))
}

// ------------------------------------------------------------------ profiles

const ACT: ActionWeights = ActionWeights { w: [4, 3, 2, 2, 1, 1, 1, 2, 1, 1, 1, 0, 0, 0], max_actions: 3, max_frames: 3 };
const BASE: Profile = Profile {
    focus: ALL,
    w: [6, 2, 8, 6, 1, 1, 3, 1, 0, 0, 0, 1, 1, 0],
    ends: [6, 2, 1, 1],
    len: 10,
    depth: 3,
    tops: 5,
    top_w: [8, 1, 1, 1, 1],
    max_triggers: 3,
    actions: ACT,
    propagate: 40,
    deep: true,
    many: false,
    small: false,
};

pub const P01: Profile = Profile { focus: C01, w: [1, 0, 10, 8, 2, 2, 4, 1, 0, 0, 0, 0, 0, 1], len: 14, tops: 8, ..BASE };
pub const P02: Profile = Profile { focus: C02, w: [8, 2, 8, 7, 1, 1, 4, 1, 0, 0, 0, 2, 4, 1], len: 18, tops: 3, ..BASE };
pub const P03: Profile = Profile { focus: C03, w: [4, 0, 12, 10, 2, 2, 12, 8, 0, 0, 0, 0, 0, 1], len: 8, depth: 4, tops: 2, top_w: [1, 0, 0, 0, 0], max_triggers: 2, ..BASE };
pub const P04: Profile = Profile {
    focus: C04,
    w: [2, 0, 4, 4, 3, 3, 3, 1, 1, 0, 0, 1, 1, 0],
    len: 6,
    depth: 2,
    tops: 3,
    top_w: [5, 2, 2, 1, 0],
    ends: [10, 1, 1, 1],
    max_triggers: 4,
    deep: false,
    actions: ActionWeights { w: [4, 3, 3, 3, 1, 2, 2, 2, 1, 1, 0, 0, 0, 0], max_actions: 2, max_frames: 3 },
    ..BASE
};
pub const P05: Profile = Profile {
    focus: C05,
    w: [2, 0, 3, 3, 10, 3, 3, 0, 0, 0, 0, 0, 0, 0],
    len: 6,
    depth: 2,
    tops: 4,
    top_w: [4, 8, 2, 0, 0],
    max_triggers: 6,
    actions: ActionWeights { w: [5, 3, 3, 3, 1, 2, 2, 6, 3, 0, 3, 1, 1, 1], max_actions: 3, max_frames: 4 },
    many: true,
    deep: false,
    ..BASE
};
pub const P06: Profile = Profile {
    focus: C06,
    w: [2, 0, 5, 4, 3, 10, 3, 0, 0, 0, 0, 0, 0, 0],
    len: 6,
    depth: 2,
    tops: 4,
    top_w: [4, 3, 8, 0, 0],
    max_triggers: 6,
    actions: ActionWeights { w: [5, 3, 3, 3, 1, 2, 2, 4, 2, 0, 3, 1, 1, 1], max_actions: 3, max_frames: 4 },
    many: true,
    deep: false,
    ..BASE
};
pub const P07: Profile = Profile {
    focus: C07,
    w: [0, 0, 1, 1, 6, 5, 2, 0, 12, 0, 0, 0, 0, 0],
    len: 8,
    depth: 2,
    tops: 3,
    top_w: [6, 3, 3, 0, 0],
    max_triggers: 10,
    actions: ActionWeights { w: [10, 1, 1, 1, 0, 2, 2, 1, 0, 0, 3, 1, 0, 4], max_actions: 2, max_frames: 4 },
    many: true,
    deep: false,
    ..BASE
};
pub const P08: Profile = Profile {
    focus: C08,
    w: [0, 0, 2, 1, 8, 6, 4, 1, 6, 5, 0, 0, 0, 0],
    len: 8,
    depth: 2,
    tops: 3,
    top_w: [6, 3, 3, 0, 0],
    max_triggers: 8,
    actions: ActionWeights { w: [2, 0, 1, 1, 1, 4, 4, 10, 3, 0, 1, 1, 1, 3], max_actions: 4, max_frames: 5 },
    many: true,
    deep: false,
    ..BASE
};
pub const P19: Profile = Profile {
    focus: C19,
    w: [3, 1, 8, 6, 5, 5, 4, 2, 2, 2, 1, 3, 3, 1],
    len: 10,
    tops: 6,
    ends: [5, 2, 2, 2],
    top_w: [6, 3, 3, 2, 0],
    max_triggers: 5,
    actions: ActionWeights { w: [3, 2, 3, 3, 2, 2, 2, 4, 2, 1, 2, 2, 1, 1], max_actions: 3, max_frames: 3 },
    ..BASE
};

macro_rules! plain_check {
    ($run:ident, $desc:ident, $p:expr) => {
        pub fn $run(c: &mut Case) -> Result<(), Violation> {
            check_plain(c, &$p)
        }
        pub fn $desc(c: &Case) -> String {
            describe_plain(c, &$p)
        }
    };
}
plain_check!(c01, d01, P01);
plain_check!(c02, d02, P02);
plain_check!(c03, d03, P03);
plain_check!(c05, d05, P05);
plain_check!(c06, d06, P06);
plain_check!(c07, d07, P07);
plain_check!(c08, d08, P08);
plain_check!(c19, d19, P19);
pub fn c04(c: &mut Case) -> Result<(), Violation> {
    check_faults(c, &P04)
}
pub fn d04(c: &Case) -> String {
    describe_plain(c, &P04)
}

// ------------------------------------------------------------------ Miri

/// One small program, and the same with one random fault. Returns whether the oracle was content.
pub fn small(case: &mut Case, which: usize) -> Result<(), Violation> {
    let base = [P01, P02, P03, P04, P05, P06, P07, P08, P19][which % 9];
    let mut w = base.w;
    w[13] = 0;
    let a = base.actions;
    let prof = Profile {
        w,
        len: 4,
        depth: 2,
        tops: 2,
        max_triggers: 3,
        deep: false,
        many: false,
        small: true,
        actions: ActionWeights { max_actions: a.max_actions.min(1), max_frames: a.max_frames.min(2), ..a },
        ..base
    };
    let p = gen_prog(case.seed, &prof);
    let m = run_prog(&p, &prof, false);
    let mut bad = m.mismatch.clone();
    account(case, &m);
    let dry = run_faulty(&p, &prof, None, false);
    if dry.fault_count > 0 {
        let mut r = case.rng();
        let at = (1 + r.below(dry.fault_count as usize) as u64, if r.chance(50) { FaultKind::Err } else { FaultKind::Panic });
        let m = run_faulty(&p, &prof, Some(at), false);
        account(case, &m);
        bad = bad.or(m.mismatch.clone());
    }
    match bad {
        Some((_, msg)) => Err(Violation::new(msg, show(&p))),
        None => Ok(()),
    }
}
