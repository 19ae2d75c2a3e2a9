use vcore::{apart, deep, fuse, graphs, lazy, making, multi, res, serial, simcheck, tangle, target};

use vcommon::Spec;

const GEN: &str = "random schema programs (id type, initial graph, triggers with scripted behaviour, top-level and nested operations, outcomes) run on the real code in lock step with an overlay-map model; non-trivial: at least two steps or one trigger ran; distinct: hash of the event trace (operations, reads with observed values, trigger runs, outcomes, final graphs)";

static SPECS: &[Spec] = &[
    Spec { prop: "C01", rule: GEN, quick: 135_000, thorough: 7_200_000, min: &[("commits", 1000), ("rollbacks", 200), ("full_compares", 1000), ("deep_levels", 5000)], assumptions: &["identity, ordering and clone code of the node type does not panic during commit", "contexts are not leaked"], workers: 0, run: c01, describe: Some(d01) },
    Spec { prop: "C02", rule: GEN, quick: 400_000, thorough: 16_000_000, min: &[("reads", 10_000), ("handle_uses", 100)], assumptions: &[], workers: 0, run: c02, describe: Some(d02) },
    Spec { prop: "C03", rule: GEN, quick: 72_000, thorough: 3_840_000, min: &[("outer_changes", 10_000), ("contexts_by_hand", 5000), ("tangled_operations", 5000), ("sub_commits", 1000), ("sibling_groups", 500), ("abandoned", 50), ("sub_panics", 50)], assumptions: &[], workers: 0, run: c03, describe: Some(d03) },
    Spec { prop: "C04", rule: "random schema programs; the last operation of each is re-run once per fault point (step boundaries, trigger entry and exit, node copies inside the library), as error and as panic, followed by reads, writes, the same operation without fault, and new transactions, all compared with the model; non-trivial: two fault points or more", quick: 14_000, thorough: 560_000, min: &[("faults_injected", 2000), ("uses_after_failure", 5000), ("clone_panics", 50), ("foreign_panics", 2000)], assumptions: &["no fault is injected into identity, ordering or clone code while a commit is being applied"], workers: 0, run: c04, describe: Some(d04) },
    Spec { prop: "C05", rule: GEN, quick: 1_500_000, thorough: 40_000_000, min: &[("save_ops_ok", 1000), ("save_ops_failed", 200), ("target_rewrites", 200), ("targets_poisoned", 20)], assumptions: &[], workers: 0, run: c05, describe: Some(d05) },
    Spec { prop: "C06", rule: GEN, quick: 1_800_000, thorough: 48_000_000, min: &[("delete_ops_ok", 1000), ("delete_ops_failed", 200)], assumptions: &[], workers: 0, run: c06, describe: Some(d06) },
    Spec { prop: "C07", rule: GEN, quick: 1_500_000, thorough: 40_000_000, min: &[("trigger_runs", 5000), ("events_fired", 1000), ("trigger_errors", 200)], assumptions: &[], workers: 0, run: c07, describe: Some(d07) },
    Spec { prop: "C08", rule: "the random schema programs of C01, and programs that give contexts targets once or several times, keep, copy, set and write them, from contexts at any depth and after their transactions, against a model of cells; distinct: hash of the event trace", quick: 550_000, thorough: 17_600_000, min: &[("target_reads", 5000), ("target_rewrites", 1000), ("targets_given_again", 5000), ("targets_kept", 5000), ("target_cells_written", 5000)], assumptions: &[], workers: 0, run: c08, describe: Some(d08) },
    Spec { prop: "C09", rule: "random registration, handle, read, write, transaction and trigger sequences over some forty resource types (without data, of several kilobytes, aligned, generic, same-named), with fresh values, against one register per registration; non-trivial: more than three values written; distinct: hash of final registers and number of writes", quick: 1_500_000, thorough: 80_000_000, min: &[("crowds", 1000), ("writes", 10_000), ("re_registrations", 1000), ("trigger_uses", 5000), ("failed_transactions", 1000), ("audits", 10_000)], assumptions: &["a resource may become inaccessible after code panicked while holding write access to it"], workers: 0, run: res::c09, describe: None },
    Spec { prop: "C10", rule: "random building, insertion and removal sequences over graphs of 0 to 4200 nodes and four id types, with globally fresh node values, against a map; every return value, lookup and full iteration compared, directly and through schema guards; non-trivial: all; distinct: hash of the final contents", quick: 35_000, thorough: 2_800_000, min: &[("inserts", 10_000), ("replacements", 2000), ("removals", 2000), ("iterations", 10_000), ("built_from_iterator", 500), ("write_accesses", 500), ("panics_under_write_access", 200)], assumptions: &[], workers: 0, run: graphs::c10, describe: None },
    Spec { prop: "C11", rule: "handles and successor walks over graphs, over contexts with pending changes at depth 0 to 5, over sources that change between and during dereferences, and from several threads at once, against stored edges and a map; distinct: hash of source contents and of lookups made", quick: 500_000, thorough: 20_000_000, min: &[("walks", 10_000), ("context_walks", 2000), ("repeated_dereferences", 5000), ("first_dereferences", 5000), ("clones", 1000), ("successor_lists", 5000), ("concurrent_dereferences", 1000), ("handles_across_changes", 1000)], assumptions: &[], workers: 0, run: graphs::c11, describe: None },
    Spec { prop: "C12", rule: "histories of dereferences of lazy documents against a repository that answers every load with a fresh version, misses and panics by script, and holds loads of several threads open together; checked offline on one global clock; non-trivial: several loads in one history or a document preset; distinct: hash of the history with its interleaving", quick: 150_000, thorough: 12_000_000, min: &[("concurrent_loads", 2000), ("misses", 1000), ("find_panics", 500), ("copies_of_loaded", 500), ("late_dereferences", 5000), ("built_from_document", 1000)], assumptions: &[], workers: 0, run: lazy::c12, describe: None },
    Spec { prop: "C18", rule: "2 to 6 threads run transactions (committed, failed, panicking, abandoned, nested, read-only, save and delete operations) and read and write accesses on one schema; every change appends its number to a list in the graph, the history is replayed in that order and every observation and real-time precedence compared; non-trivial: operations overlapped in time; distinct: hash of the final order and of every position observed", quick: 24_000, thorough: 1_280_000, min: &[("overlapping_pairs", 20_000), ("writer_switches_in_final_order", 10_000), ("commits", 10_000), ("failed_transactions", 2000), ("readers", 2000), ("cases_of_large_commits", 500)], assumptions: &["the shared schema has no triggers or resources (with them the type cannot be shared between threads)"], workers: 3, run: serial::c18, describe: None },
    Spec { prop: "C22", rule: "scoped reads and writes over instrumented accessors (1 to 6 components, every missing subset, panics in the closure and in an access), over resources and targets of a schema, and over locks shared by threads; the oracle counts closure runs, values by position and outstanding guards after each call; distinct: hash of shapes and final values", quick: 525_000, thorough: 28_000_000, min: &[("scoped_reads", 10_000), ("scoped_writes", 10_000), ("calls_with_something_missing", 5000), ("closure_panics", 1000), ("access_panics", 500), ("schema_tuples", 5000), ("threaded_calls", 10_000)], assumptions: &[], workers: 0, run: res::c22, describe: None },
    Spec { prop: "C19", rule: GEN, quick: 750_000, thorough: 20_000_000, min: &[("leak_checks", 5000), ("top_panics", 50), ("abandoned", 50), ("schema_drops", 1000), ("resources_replaced", 1000), ("fuses_blown", 1000)], assumptions: &[], workers: 0, run: c19, describe: Some(d19) },
    Spec { prop: "C26", rule: "two to four schemas in one thread, with resources of the same types, triggers on the same events, some writing to another schema, and transactions of different schemas nested in each other with every outcome; every schema compared with a model of its own, through all its open contexts, after every step; and rows of 3 to 70 schemas whose triggers act on the next one, or that are all locked at once; and threads with schemas of their own, or waiting for one that is held while others are used; and successions of schemas, each made once another is dropped, with handles on the resources of the dropped ones kept and used; distinct: hash of the program", quick: 1_600_000, thorough: 30_000_000, min: &[("schemas", 20_000), ("accesses_beside_a_held_schema", 1000), ("threads_kept_waiting", 200), ("steps_beside_other_threads", 10_000), ("old_handles", 100_000), ("writes_after_the_schema", 5_000), ("chained_schemas", 10_000), ("open_at_once", 10_000), ("nested_across_schemas", 10_000), ("trigger_writes_elsewhere", 3_000), ("panics", 3_000), ("events", 3_000), ("save_operations", 10_000)], assumptions: &["the identifiers, locks and contexts of one schema are not used with another"], workers: 0, run: c26, describe: None },
    Spec { prop: "C27", rule: "schemas built step by step from resources, triggers and plugins (installed repeatedly, inside each other, without data, running operations on the schema so far, or giving back another one), with handles, writes, operations and events in between, and sets of resources and triggers of their own; graph, resources and triggers of every event compared with a model throughout; distinct: hash of the steps made", quick: 300_000, thorough: 20_000_000, min: &[("full_checks", 100_000), ("plugins", 50_000), ("replaced_schemas", 1000), ("operations", 20_000), ("sets", 5000)], assumptions: &[], workers: 0, run: making::c27, describe: None },
    // Parts of C23, under AddressSanitizer and ThreadSanitizer.
    Spec { prop: "APART", rule: "threads with schemas of their own, or waiting for one that is held while others are used", quick: 4000, thorough: 400_000, min: &[("steps_beside_other_threads", 1000)], assumptions: &[], workers: 0, run: apart::apart, describe: None },
    Spec { prop: "FUSE", rule: "programs whose id, node, edge, parameter and trigger code panics at a random call, or compares inconsistently", quick: 100_000, thorough: 8_000_000, min: &[("fuses_blown", 1000)], assumptions: &[], workers: 0, run: fuse::fuse, describe: None },
];

fn c01(c: &mut vcommon::Case) -> Result<(), vcommon::Violation> {
    if c.idx % 40 == 39 {
        deep::levels(c)
    } else {
        simcheck::c01(c)
    }
}

fn d01(c: &vcommon::Case) -> String {
    if c.idx % 40 == 39 {
        "subtransactions in subtransactions".into()
    } else {
        simcheck::d01(c)
    }
}

fn c05(c: &mut vcommon::Case) -> Result<(), vcommon::Violation> {
    if c.idx % 1000 == 999 {
        deep::ladder(c)
    } else {
        simcheck::c05(c)
    }
}

fn d05(c: &vcommon::Case) -> String {
    if c.idx % 1000 == 999 {
        "operations in triggers of operations".into()
    } else {
        simcheck::d05(c)
    }
}

fn c06(c: &mut vcommon::Case) -> Result<(), vcommon::Violation> {
    if c.idx % 1000 == 999 {
        deep::ladder(c)
    } else {
        simcheck::c06(c)
    }
}

fn d06(c: &vcommon::Case) -> String {
    if c.idx % 1000 == 999 {
        "operations in triggers of operations".into()
    } else {
        simcheck::d06(c)
    }
}

fn c07(c: &mut vcommon::Case) -> Result<(), vcommon::Violation> {
    if c.idx % 1000 == 999 {
        deep::ladder(c)
    } else {
        simcheck::c07(c)
    }
}

fn d07(c: &vcommon::Case) -> String {
    if c.idx % 1000 == 999 {
        "operations in triggers of operations".into()
    } else {
        simcheck::d07(c)
    }
}

fn c02(c: &mut vcommon::Case) -> Result<(), vcommon::Violation> {
    if c.idx % 40 == 39 {
        deep::levels(c)
    } else if c.idx % 8 == 7 {
        tangle::tangle(c)
    } else {
        simcheck::c02(c)
    }
}

fn d02(c: &vcommon::Case) -> String {
    if c.idx % 40 == 39 {
        "subtransactions in subtransactions".into()
    } else if c.idx % 8 == 7 {
        "a program over entangled contexts".into()
    } else {
        simcheck::d02(c)
    }
}

fn c03(c: &mut vcommon::Case) -> Result<(), vcommon::Violation> {
    if c.idx % 40 == 39 {
        deep::levels(c)
    } else if c.idx % 2 == 1 {
        tangle::tangle(c)
    } else {
        simcheck::c03(c)
    }
}

fn d03(c: &vcommon::Case) -> String {
    if c.idx % 40 == 39 {
        "subtransactions in subtransactions".into()
    } else if c.idx % 2 == 1 {
        "a program over entangled contexts".into()
    } else {
        simcheck::d03(c)
    }
}

fn c04(c: &mut vcommon::Case) -> Result<(), vcommon::Violation> {
    if c.idx % 4 == 3 {
        fuse::ordeal(c)
    } else {
        simcheck::c04(c)
    }
}

fn d04(c: &vcommon::Case) -> String {
    if c.idx % 4 == 3 {
        "a program whose identity, ordering and clone code panics".into()
    } else {
        simcheck::d04(c)
    }
}

fn c19(c: &mut vcommon::Case) -> Result<(), vcommon::Violation> {
    match c.idx % 8 {
        3 | 7 => res::tokens(c),
        5 => tangle::tangle(c),
        // Panics of foreign code may leak inside the standard library: not under LeakSanitizer.
        6 if !c.light => fuse::fuse(c),
        _ => simcheck::c19(c),
    }
}

fn d19(c: &vcommon::Case) -> String {
    match c.idx % 8 {
        3 | 7 => "a program over values with tokens".into(),
        5 => "a program over entangled contexts".into(),
        6 => "a program whose own code panics".into(),
        _ => simcheck::d19(c),
    }
}

fn c26(c: &mut vcommon::Case) -> Result<(), vcommon::Violation> {
    if c.idx % 400 == 123 {
        apart::apart(c)
    } else if c.idx % 10 == 9 {
        multi::chain(c)
    } else if c.idx % 10 == 4 {
        multi::succession(c)
    } else {
        multi::c26(c)
    }
}

fn c08(c: &mut vcommon::Case) -> Result<(), vcommon::Violation> {
    if c.idx % 400 == 399 {
        deep::ladder(c)
    } else if c.idx % 4 == 3 {
        target::c08(c)
    } else {
        simcheck::c08(c)
    }
}

fn d08(c: &vcommon::Case) -> String {
    if c.idx % 400 == 399 {
        "operations in triggers of operations".into()
    } else if c.idx % 4 == 3 {
        "a program over targets".into()
    } else {
        simcheck::d08(c)
    }
}

fn main() {
    vcommon::main_with(SPECS)
}
