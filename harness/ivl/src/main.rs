mod date;
mod tree;

use vcommon::Spec;

static SPECS: &[Spec] = &[
    Spec { prop: "C16", rule: "random histories of insert, delete (present, absent, equal lower bound, duplicates) and queries on the real tree, compared with a plain list after every step; bounds clustered in few values, wide, sorted, reversed, with equal-but-distinguishable bounds and dates; trees up to 1200 intervals; non-trivial: at least one deletion of a stored interval and one overlapping query; distinct: hash of the operations", quick: 120_000, thorough: 4_800_000, min: &[("inserts", 300_000), ("deletes_present", 100_000), ("deletes_absent", 20_000), ("queries_overlapping", 200_000), ("queries_empty", 20_000), ("two_child_deletes_possible", 10_000), ("date_histories", 1000)], assumptions: &["equal intervals have equal bounds, and lo <= hi", "the depth of the tree fits the stack of the thread"], workers: 0, run: tree::c16, describe: None },
    Spec { prop: "C17", rule: "batches of dates of 0 to 8 components of several types, both endiannesses, with shared prefixes and suffixes; every pair compared with every comparison operator against the component lists, sorted as a whole, and used as intervals; non-trivial: pairs that differ in one component only; distinct: hash of the components", quick: 1_200_000, thorough: 48_000_000, min: &[("pairs", 1_000_000), ("equal_pairs", 10_000), ("single_component_difference", 50_000), ("interval_points", 100_000)], assumptions: &[], workers: 0, run: date::c17, describe: None },
];

fn main() {
    vcommon::main_with(SPECS)
}
