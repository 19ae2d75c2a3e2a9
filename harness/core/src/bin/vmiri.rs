//! Workloads of the library for Miri: small cases of the other checks, one group per argument.
//! What the oracles of those checks say is counted, not judged: here only Miri's diagnostics count.

use std::panic::{catch_unwind, AssertUnwindSafe};

use vcommon::{case_seed, Case, Tier, Violation};
use vcore::{apart, deep, fuse, graphs, lazy, making, multi, res, serial, share, simcheck, tangle, target};

type F = fn(&mut Case) -> Result<(), Violation>;

const GROUPS: &[(&str, F)] = &[
    ("sim", |c| simcheck::small(c, c.idx as usize)),
    ("tokens-c19", res::tokens),
    ("resources-c09", res::c09),
    ("graphs-c10", graphs::c10),
    ("handles-c11", graphs::c11),
    ("handles-threads-c11", |c| graphs::c11_threads(c, 2)),
    ("lazy-c12", lazy::sequential),
    ("lazy-threads-c12", |c| lazy::threads(c, 2)),
    ("lazy-threads3-c12", |c| lazy::threads(c, 3)),
    ("serial-c18", |c| serial::run(c, serial::Size { threads: 2, per: 2 })),
    ("serial3-c18", |c| serial::run(c, serial::Size { threads: 3, per: 2 })),
    ("access-c22", res::c22),
    ("schemas-c26", multi::c26),
    ("tangle-c03", tangle::tangle),
    ("targets-c08", target::c08),
    ("chains-c26", multi::chain),
    ("succession-c26", multi::succession),
    ("making-c27", making::c27),
    ("levels-c03", deep::levels),
    ("ladder-c07", deep::ladder),
    ("fuse", fuse::fuse),
    ("sharing", share::run),
    ("apart-c26", apart::apart),
    ("access-threads-c22", |c| res::c22_threads(c, 2, 3)),
];

/// The amount of work in a case, as counted by its own monitors.
fn cost(c: &Case) -> u64 {
    c.counters.iter().filter(|(k, _)| !k.starts_with("max_")).map(|(_, v)| v).sum()
}

/// `vmiri plan GROUP SEED N` (natively): the work in each of the first N cases.
/// `vmiri GROUP SEED BUDGET_S IDX...` (under Miri): runs those cases until the time is used up.
fn main() {
    let a: Vec<String> = std::env::args().skip(1).collect();
    let num = |i: usize| a.get(i).and_then(|x| x.parse::<u64>().ok()).unwrap_or(0);
    vcommon::quiet_panics();
    let plan = a.first().is_some_and(|x| x == "plan");
    let group = &a[plan as usize];
    let (name, f) = GROUPS.iter().find(|g| g.0 == group).expect("group");
    let run = |seed: u64, idx: u64| {
        let mut case = Case::detached("C23", Tier::Quick, case_seed(seed, name, idx), idx);
        let r = catch_unwind(AssertUnwindSafe(|| f(&mut case)));
        let verdict = match r {
            Ok(Ok(())) => "ok",
            Ok(Err(_)) => "oracle",
            Err(_) => "panic",
        };
        (case, verdict)
    };
    if plan {
        for idx in 0..num(3) {
            println!("{idx} {}", cost(&run(num(2), idx).0));
        }
        return;
    }
    let start = std::time::Instant::now();
    for idx in a[3..].iter().filter_map(|x| x.parse::<u64>().ok()) {
        if num(2) > 0 && start.elapsed().as_secs() >= num(2) {
            break;
        }
        println!("START {name} {idx}");
        let t = std::time::Instant::now();
        let (case, verdict) = run(num(1), idx);
        println!("DONE {name} {idx} {verdict} {:016x} {} {}", case.hash, cost(&case), t.elapsed().as_millis());
    }
}
