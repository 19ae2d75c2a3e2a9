mod docs;
mod lazyload;
mod opts;
mod robust;
mod session;
mod tree;

use vcommon::Spec;

static SPECS: &[Spec] = &[
    Spec { prop: "C13", rule: "random directory trees (names with dots, spaces, control and non-UTF-8 bytes, nesting, 26 extensions, ignore files) written to a scratch directory, listed by the real repository, every listed document and many absent ids loaded; non-trivial: at least one document listed; distinct: hash of extension, ids and content lengths", quick: 25_000, thorough: 1_500_000, min: &[("documents_loaded", 10_000), ("ids_with_dots", 1000), ("non_utf8_ids", 300), ("absent_ids", 5000)], assumptions: &["the files do not change while they are loaded"], workers: 0, run: docs::c13, describe: None },
    Spec { prop: "C14", rule: "random directory trees (files, directories, links, pipes, hidden names, ignore files, 26 extensions with metacharacters) listed by the real repository and compared as multisets with the generator's own list; distinct: hash of extension and ids", quick: 18_000, thorough: 1_000_000, min: &[("documents_listed", 10_000), ("hidden_or_ignored", 1000), ("directories_with_the_extension", 300), ("odd_files", 300), ("metacharacter_extensions", 500)], assumptions: &["links to regular files may be listed or not", "ignore rules are those of the ignore crate for the simple patterns generated"], workers: 0, run: docs::c14, describe: None },
    Spec { prop: "C15", rule: "sessions of save, delete and list commands parsed by the real command line and executed on one DocumentCli in a child process, and single commands run by the real binary, against a map from id to content; standard output, error text, exit status and the whole graph compared after every command; distinct: hash of the commands and outcomes", quick: 6_000, thorough: 480_000, min: &[("commands", 10_000), ("saves_ok", 2000), ("deletes_ok", 300), ("deletes_refused", 300), ("lists", 2000), ("without_id", 300), ("binary_runs", 1000)], assumptions: &["ids are given as UTF-8 command-line arguments that do not begin with a dash or equal a subcommand"], workers: 0, run: session::c15, describe: None },
    Spec { prop: "C20", rule: "single commands of the real binary on scratch directories, with a full snapshot (names, types, contents, links) of the directory, its siblings and the home directory before and after; distinct: hash of command and snapshot", quick: 9_000, thorough: 720_000, min: &[("binary_runs", 1000), ("snapshots", 2000), ("saves", 300), ("deletes", 100), ("lists", 100)], assumptions: &[], workers: 0, run: session::c20, describe: None },
    Spec { prop: "C24", rule: "random programs over lazy documents (built, copied, identified, dropped, dereferenced, put in graphs, iterated, looked up, walked, saved and deleted through operations, transactions and commands) on a repository that notices every load outside a dereference; and traces of the files opened by the real tool and by the real repository step by step; distinct: hash of the program or of the tree", quick: 240_000, thorough: 4_000_000, min: &[("operations", 100_000), ("dereferences", 50_000), ("loads", 20_000), ("walks", 5_000), ("commands", 10_000)], assumptions: &["documents are dereferenced by the caller only, or by the edge property of a walk"], workers: 0, run: lazyload::c24, describe: None },
    Spec { prop: "C25", rule: "the real binary with random argument lists (options and words in any order, non-UTF-8 and very long ones), base directories that are missing, files, links, pipes or unreadable, unreadable or looping trees, unusable ignore files, a removed working directory, files coming and going, and standard output full, closed or with nobody reading, run as an unprivileged user; exit status, standard error and (for listings) the readable documents are judged; distinct: hash of arguments, surroundings and tree", quick: 9_000, thorough: 400_000, min: &[("runs", 4000), ("lists", 1000), ("listings_lost", 100), ("odd_bases", 500), ("vanished_working_directories", 200), ("word_lines", 300)], assumptions: &["standard error accepts what is written to it", "a file that appears or vanishes during a listing may be listed or not"], workers: 0, run: robust::c25, describe: None },
    Spec { prop: "C28", rule: "commands of the real binary with the base directory and the extension given or not, in every spelling and position, relative and absolute, from working directories with documents of their own, under environments that name other directories and extensions; what is listed and what can be deleted compared with the directory and extension that should count; distinct: hash of the argument lists", quick: 6_000, thorough: 300_000, min: &[("binary_runs", 10_000), ("options_inside_the_command", 5_000), ("lists_of_something", 1500), ("deletes_of_something", 500), ("deletes_of_nothing", 1000)], assumptions: &["neither option is given twice"], workers: 0, run: opts::c28, describe: None },
];

fn main() {
    vcommon::main_with(SPECS)
}
