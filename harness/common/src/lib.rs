//! Shared runner: seeded cases, counters, three-valued verdicts, watchdog, evidence, replay files.

use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::fmt::Write as _;
use std::io::Write as _;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

// ---------------------------------------------------------------- rng

#[derive(Clone, Debug)]
pub struct Rng(u64);

pub fn mix(mut z: u64) -> u64 {
    z = z.wrapping_add(0x9E3779B97F4A7C15);
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
    z ^ (z >> 31)
}

impl Rng {
    pub fn new(seed: u64) -> Self {
        Rng(mix(seed))
    }
    pub fn u64(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        mix(self.0)
    }
    /// Uniform in 0..n (n > 0).
    pub fn below(&mut self, n: usize) -> usize {
        (self.u64() % n.max(1) as u64) as usize
    }
    pub fn range(&mut self, lo: i64, hi: i64) -> i64 {
        lo + (self.u64() % ((hi - lo + 1) as u64)) as i64
    }
    pub fn chance(&mut self, percent: u32) -> bool {
        self.u64() % 100 < percent as u64
    }
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        &xs[self.below(xs.len())]
    }
    /// Index chosen with the given weights.
    pub fn weighted(&mut self, ws: &[u32]) -> usize {
        let total: u64 = ws.iter().map(|w| *w as u64).sum();
        let mut r = self.u64() % total.max(1);
        for (i, w) in ws.iter().enumerate() {
            if r < *w as u64 {
                return i;
            }
            r -= *w as u64;
        }
        ws.len() - 1
    }
    /// A size up to `max`, often on or next to a multiple of a power of two.
    pub fn edge(&mut self, max: usize) -> usize {
        let max = max.max(1);
        if self.chance(25) {
            return 1 + self.below(max);
        }
        let mut bits = 0;
        while 1usize << (bits + 1) <= max {
            bits += 1;
        }
        let p = 1usize << self.below(bits + 1);
        let c = if self.chance(50) { 1 } else { 1 + self.below((max / p).max(1)) };
        let n = (c * p + self.below(3)).saturating_sub(1);
        n.clamp(1, max)
    }
    pub fn shuffle<T>(&mut self, xs: &mut [T]) {
        for i in (1..xs.len()).rev() {
            xs.swap(i, self.below(i + 1));
        }
    }
}

// ---------------------------------------------------------------- cases

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

#[derive(Debug, Clone)]
pub struct Violation {
    pub msg: String,
    pub witness: String,
}

impl Violation {
    pub fn new(msg: impl Into<String>, witness: impl Into<String>) -> Self {
        let mut msg: String = msg.into();
        if msg.chars().count() > 800 {
            msg = msg.chars().take(800).chain(" ...".chars()).collect();
        }
        Violation { msg, witness: witness.into() }
    }
}

/// What one case observed.
pub struct Case {
    pub prop: &'static str,
    pub tier: Tier,
    pub seed: u64,
    pub idx: u64,
    pub counters: BTreeMap<&'static str, u64>,
    pub hash: u64,
    pub nontrivial: bool,
    pub sample: Option<String>,
    pub known: Vec<String>,
    /// Run slowly (by a sanitizer): less work per case.
    pub light: bool,
    slot: Option<Arc<Slot>>,
}

impl Case {
    pub fn detached(prop: &'static str, tier: Tier, seed: u64, idx: u64) -> Self {
        Case { prop, tier, seed, idx, counters: BTreeMap::new(), hash: 0, nontrivial: false, sample: None, known: vec![], light: false, slot: None }
    }
    pub fn rng(&self) -> Rng {
        Rng::new(self.seed)
    }
    pub fn count(&mut self, k: &'static str, n: u64) {
        if n > 0 {
            *self.counters.entry(k).or_insert(0) += n;
        }
    }
    pub fn max(&mut self, k: &'static str, n: u64) {
        let e = self.counters.entry(k).or_insert(0);
        *e = (*e).max(n);
    }
    pub fn mixh(&mut self, v: u64) {
        self.hash = mix(self.hash ^ v).rotate_left(7);
    }
    /// Registers the calling thread as belonging to this case (for the deadlock detector).
    pub fn thread_token(&self) -> ThreadToken {
        ThreadToken { slot: self.slot.clone() }
    }
}

#[derive(Clone)]
pub struct ThreadToken {
    slot: Option<Arc<Slot>>,
}
impl ThreadToken {
    pub fn enter(&self) {
        if let Some(s) = &self.slot {
            s.tids.lock().unwrap().push(gettid());
        }
    }
}

struct Slot {
    progress: AtomicU64, // idx + 1 while a case runs, 0 when idle
    seq: AtomicU64,
    tids: Mutex<Vec<u64>>,
}

fn gettid() -> u64 {
    std::fs::read_link("/proc/thread-self")
        .ok()
        .and_then(|p| p.file_name().and_then(|n| n.to_str().and_then(|s| s.parse().ok())))
        .unwrap_or(0)
}

pub type CaseFn = fn(&mut Case) -> Result<(), Violation>;

pub struct Spec {
    pub prop: &'static str,
    pub rule: &'static str,
    pub quick: u64,
    pub thorough: u64,
    /// Counters that must reach this value, or the run is inconclusive.
    pub min: &'static [(&'static str, u64)],
    pub assumptions: &'static [&'static str],
    /// Worker threads (0: one per core).
    pub workers: usize,
    pub run: CaseFn,
    pub describe: Option<fn(&Case) -> String>,
}

pub struct Args {
    pub prop: String,
    pub tier: Tier,
    pub seed: u64,
    pub only: Option<u64>,
    pub evidence: Option<String>,
    pub replays: String,
    pub journal: Option<String>,
    pub cap_s: u64,
    /// Under a sanitizer: what the oracles say is counted, not judged.
    pub sanitize: bool,
}

pub fn parse_args() -> Args {
    let mut a = Args {
        prop: String::new(),
        tier: Tier::Quick,
        seed: 1,
        only: None,
        evidence: None,
        replays: "replays".into(),
        journal: None,
        cap_s: 0,
        sanitize: false,
    };
    let mut it = std::env::args().skip(1);
    while let Some(x) = it.next() {
        let mut val = || it.next().unwrap_or_default();
        match x.as_str() {
            "--tier" => a.tier = if val() == "thorough" { Tier::Thorough } else { Tier::Quick },
            "--seed" => a.seed = val().parse().unwrap_or(1),
            "--sanitize" => a.sanitize = true,
            "--case" => a.only = val().parse().ok(),
            "--evidence" => a.evidence = Some(val()),
            "--replays" => a.replays = val(),
            "--journal" => a.journal = Some(val()),
            "--cap" => a.cap_s = val().parse().unwrap_or(0),
            p => a.prop = p.to_string(),
        }
    }
    a
}

pub fn case_seed(seed: u64, prop: &str, idx: u64) -> u64 {
    let mut h = mix(seed);
    for b in prop.bytes() {
        h = mix(h ^ b as u64);
    }
    mix(h ^ idx.wrapping_mul(0xD6E8FEB86659FD93))
}

// ---------------------------------------------------------------- json

pub fn jstr(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn jlist(xs: impl IntoIterator<Item = String>) -> String {
    format!("[{}]", xs.into_iter().collect::<Vec<_>>().join(","))
}

// ---------------------------------------------------------------- panics

thread_local! {
    static LAST_PANIC: RefCell<String> = const { RefCell::new(String::new()) };
}

pub fn quiet_panics() {
    std::panic::set_hook(Box::new(|info| {
        let msg = info
            .payload()
            .downcast_ref::<&str>()
            .map(|s| s.to_string())
            .or_else(|| info.payload().downcast_ref::<String>().cloned())
            .unwrap_or_else(|| "<non-string payload>".into());
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        LAST_PANIC.with(|p| *p.borrow_mut() = format!("{msg} at {loc}"));
    }));
}

pub fn last_panic() -> String {
    LAST_PANIC.with(|p| p.borrow().clone())
}

// ---------------------------------------------------------------- runner

struct Totals {
    evaluations: u64,
    nontrivial: u64,
    hashes: HashSet<u64>,
    all_hashes: HashSet<u64>,
    counters: BTreeMap<&'static str, u64>,
    samples: Vec<String>,
    known: BTreeMap<String, u64>,
    violation: Option<(u64, Violation)>,
}

const MAX_KEYS: [&str; 2] = ["max_", "deepest"];

fn run_one(spec: &Spec, case: &mut Case) -> Result<(), Violation> {
    let f = spec.run;
    match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| f(case))) {
        Ok(r) => r,
        Err(_) => {
            let d = spec.describe.map(|d| d(case)).unwrap_or_default();
            Err(Violation::new(format!("unexpected panic: {}", last_panic()), d))
        }
    }
}

pub fn write_replay(spec: &Spec, args: &Args, idx: u64, v: &Violation) -> String {
    let _ = std::fs::create_dir_all(&args.replays);
    let path = format!("{}/{}-seed{}-case{}.json", args.replays, spec.prop, args.seed, idx);
    let tier = if args.tier == Tier::Quick { "quick" } else { "thorough" };
    let body = format!(
        "{{\n \"property\": {},\n \"tier\": \"{tier}\",\n \"seed\": {},\n \"case\": {idx},\n \"message\": {},\n \"witness\": {}\n}}\n",
        jstr(spec.prop),
        args.seed,
        jstr(&v.msg),
        jlist(v.witness.lines().map(|l| format!("\n  {}", jstr(l)))),
    );
    let _ = std::fs::write(&path, body);
    path
}

fn evidence(spec: &Spec, args: &Args, t: &Totals, wall: f64, workers: usize) {
    let Some(path) = &args.evidence else { return };
    let tier = if args.tier == Tier::Quick { "quick" } else { "thorough" };
    let counters = t.counters.iter().map(|(k, v)| format!("{}: {v}", jstr(k))).collect::<Vec<_>>().join(", ");
    let body = format!(
        concat!(
            "{{\n \"property\": {},\n \"tier\": \"{}\",\n \"seed\": {},\n \"level\": \"exploration\",\n \"coverage\": {{\n",
            "  \"evaluations\": {},\n  \"distinct_nontrivial\": {},\n  \"distinct_traces\": {},\n  \"rule\": {},\n  \"observed\": {{{}}},\n  \"workers\": {},\n  \"known_findings_seen\": {},\n  \"samples\": {}\n }},\n",
            " \"assumptions\": {},\n \"wall_s\": {:.3},\n \"violations\": {}\n}}\n"
        ),
        jstr(spec.prop),
        tier,
        args.seed,
        t.evaluations,
        t.hashes.len(),
        t.all_hashes.len(),
        jstr(spec.rule),
        counters,
        workers,
        jlist(t.known.iter().map(|(k, n)| jstr(&format!("{k} (x{n})")))),
        jlist(t.samples.iter().map(|s| jstr(s))),
        jlist(spec.assumptions.iter().map(|s| jstr(s))),
        wall,
        t.violation.is_some() as u8,
    );
    if let Some(d) = std::path::Path::new(path).parent() {
        let _ = std::fs::create_dir_all(d);
    }
    let _ = std::fs::write(path, body);
}

/// Runs all cases of the property and ends the process: 0 held, 1 violated, 2 inconclusive.
pub fn main_with(specs: &'static [Spec]) -> ! {
    quiet_panics();
    let args: &'static Args = Box::leak(Box::new(parse_args()));
    let Some(spec) = specs.iter().find(|s| s.prop == args.prop) else {
        eprintln!("unknown property {:?}", args.prop);
        std::process::exit(2);
    };
    let total = if args.tier == Tier::Quick { spec.quick } else { spec.thorough };
    let cores = std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4);
    let workers = if args.only.is_some() {
        1
    } else if spec.workers == 0 {
        cores.min(16)
    } else {
        spec.workers.min(cores.max(1))
    };
    let cap = Duration::from_secs(match (args.cap_s, args.tier) {
        (0, Tier::Quick) => 300,
        (0, Tier::Thorough) => 3000,
        (s, _) => s,
    });
    let start = Instant::now();
    let next = Arc::new(AtomicU64::new(0));
    let stop = Arc::new(AtomicBool::new(false));
    let totals = Arc::new(Mutex::new(Totals {
        evaluations: 0,
        nontrivial: 0,
        hashes: HashSet::new(),
        all_hashes: HashSet::new(),
        counters: BTreeMap::new(),
        samples: vec![],
        known: BTreeMap::new(),
        violation: None,
    }));
    let journal = args.journal.as_ref().map(|p| {
        Arc::new(std::fs::OpenOptions::new().create(true).write(true).truncate(true).open(p).expect("journal"))
    });
    let slots: Vec<Arc<Slot>> = (0..workers)
        .map(|_| Arc::new(Slot { progress: AtomicU64::new(0), seq: AtomicU64::new(0), tids: Mutex::new(vec![]) }))
        .collect();

    let handles: Vec<_> = (0..workers)
        .map(|w| {
            let (next, stop, totals, journal, slot) = (next.clone(), stop.clone(), totals.clone(), journal.clone(), slots[w].clone());
            std::thread::Builder::new()
                .stack_size(256 << 20)
                .spawn(move || loop {
                    if stop.load(Ordering::Relaxed) || start.elapsed() > cap {
                        return;
                    }
                    let idx = match args.only {
                        Some(i) if next.fetch_add(1, Ordering::Relaxed) == 0 => i,
                        Some(_) => return,
                        None => next.fetch_add(1, Ordering::Relaxed),
                    };
                    if args.only.is_none() && idx >= total {
                        return;
                    }
                    if let Some(j) = &journal {
                        use std::os::unix::fs::FileExt;
                        let _ = j.write_all_at(&(idx + 1).to_le_bytes(), w as u64 * 8);
                    }
                    let mut case = Case::detached(spec.prop, args.tier, case_seed(args.seed, spec.prop, idx), idx);
                    case.slot = Some(slot.clone());
                    case.light = args.sanitize;
                    *slot.tids.lock().unwrap() = vec![gettid()];
                    slot.seq.fetch_add(1, Ordering::Relaxed);
                    slot.progress.store(idx + 1, Ordering::Relaxed);
                    let r = run_one(spec, &mut case);
                    slot.progress.store(0, Ordering::Relaxed);
                    if let Some(j) = &journal {
                        use std::os::unix::fs::FileExt;
                        let _ = j.write_all_at(&0u64.to_le_bytes(), w as u64 * 8);
                    }
                    let mut t = totals.lock().unwrap();
                    t.evaluations += 1;
                    t.all_hashes.insert(case.hash);
                    if case.nontrivial {
                        t.nontrivial += 1;
                        t.hashes.insert(case.hash);
                        if t.samples.len() < 3 {
                            let plain = (idx < 6).then(|| format!("case {idx}, seed {:#x}: observed {:?}, trace {:#x}", case.seed, case.counters, case.hash));
                            if let Some(s) = case.sample.take().or(plain) {
                                let s: String = s.chars().take(1500).collect();
                                t.samples.push(s);
                            }
                        }
                    }
                    for (k, v) in &case.counters {
                        let e = t.counters.entry(k).or_insert(0);
                        if MAX_KEYS.iter().any(|m| k.starts_with(m)) {
                            *e = (*e).max(*v);
                        } else {
                            *e += *v;
                        }
                    }
                    for k in case.known.drain(..) {
                        *t.known.entry(k).or_insert(0) += 1;
                    }
                    if let (Err(_), true) = (&r, args.sanitize) {
                        *t.counters.entry("oracle_mismatches").or_insert(0) += 1;
                    } else if let Err(v) = r {
                        if t.violation.as_ref().is_none_or(|(i, _)| idx < *i) {
                            t.violation = Some((idx, v));
                        }
                        stop.store(true, Ordering::Relaxed);
                    }
                })
                .expect("worker")
        })
        .collect();

    // Watchdog: a case whose threads are all asleep with no context switch is deadlocked; a case
    // that burns CPU far beyond any normal case makes no bounded progress.
    let done = Arc::new(AtomicBool::new(false));
    {
        let (done, totals, slots) = (done.clone(), totals.clone(), slots.clone());
        std::thread::spawn(move || {
            struct W {
                seq: u64,
                sig: u64,
                still: u32,
                cpu0: u64,
            }
            let mut ws: Vec<W> = slots.iter().map(|_| W { seq: 0, sig: 0, still: 0, cpu0: 0 }).collect();
            while !done.load(Ordering::Relaxed) {
                std::thread::sleep(Duration::from_millis(500));
                for (s, w) in slots.iter().zip(ws.iter_mut()) {
                    let idx1 = s.progress.load(Ordering::Relaxed);
                    let seq = s.seq.load(Ordering::Relaxed);
                    if idx1 == 0 {
                        w.seq = 0;
                        continue;
                    }
                    let tids = s.tids.lock().unwrap().clone();
                    let (asleep, sig, cpu) = thread_sig(&tids);
                    if w.seq != seq {
                        *w = W { seq, sig, still: 0, cpu0: cpu };
                        continue;
                    }
                    if asleep && sig == w.sig {
                        w.still += 1;
                    } else {
                        w.still = 0;
                        w.sig = sig;
                    }
                    let hung = w.still >= 40;
                    let spinning = cpu.saturating_sub(w.cpu0) > 150_000_000_000;
                    if (hung || spinning) && args.sanitize {
                        println!("{}: case {} does not end", spec.prop, idx1 - 1);
                        let _ = std::io::stdout().flush();
                        std::process::exit(3);
                    }
                    if hung || spinning {
                        let idx = idx1 - 1;
                        let case = Case::detached(spec.prop, args.tier, case_seed(args.seed, spec.prop, idx), idx);
                        let d = spec.describe.map(|d| d(&case)).unwrap_or_default();
                        let msg = if hung {
                            "deadlock: every thread of the case is blocked for good (asleep, no context switch over 20 s)"
                        } else {
                            "no bounded progress: the case used over 150 s of CPU time"
                        };
                        let v = Violation::new(msg, d);
                        let path = write_replay(spec, args, idx, &v);
                        let mut t = totals.lock().unwrap();
                        t.evaluations += 1;
                        t.violation = Some((idx, v.clone()));
                        evidence(spec, args, &t, start.elapsed().as_secs_f64(), workers);
                        println!("{}: {}", spec.prop, v.msg);
                        println!("VIOLATION property={} replay={}", spec.prop, path);
                        let _ = std::io::stdout().flush();
                        std::process::exit(1);
                    }
                }
            }
        });
    }
    for h in handles {
        let _ = h.join();
    }
    done.store(true, Ordering::Relaxed);

    let t = totals.lock().unwrap();
    let wall = start.elapsed().as_secs_f64();
    evidence(spec, args, &t, wall, workers);
    println!(
        "{}: {} cases ({} distinct non-trivial), {:.1} s, observed {:?}",
        spec.prop,
        t.evaluations,
        t.hashes.len(),
        wall,
        t.counters
    );
    for (k, n) in &t.known {
        println!("KNOWN-FINDING: property={} {k} [seen {n} times]", spec.prop);
    }
    if let Some((idx, v)) = &t.violation {
        let path = write_replay(spec, args, *idx, v);
        println!("{}: {}", spec.prop, v.msg);
        println!("VIOLATION property={} replay={}", spec.prop, path);
        let _ = std::io::stdout().flush();
        std::process::exit(1);
    }
    if args.only.is_none() && !args.sanitize {
        for (k, m) in spec.min {
            let got = t.counters.get(k).copied().unwrap_or(0);
            if got < *m {
                println!("{}: INCONCLUSIVE: observed {k} = {got} < {m}", spec.prop);
                std::process::exit(2);
            }
        }
        if t.hashes.len() < 2 {
            println!("{}: INCONCLUSIVE: nothing non-trivial observed", spec.prop);
            std::process::exit(2);
        }
    }
    std::process::exit(0)
}

/// (all asleep, signature of context switches, cpu nanoseconds) of a set of threads.
fn thread_sig(tids: &[u64]) -> (bool, u64, u64) {
    let mut asleep = true;
    let mut sig = tids.len() as u64;
    let mut cpu = 0;
    for t in tids {
        let Ok(st) = std::fs::read_to_string(format!("/proc/self/task/{t}/status")) else {
            continue; // the thread has ended
        };
        for l in st.lines() {
            if let Some(s) = l.strip_prefix("State:") {
                asleep &= s.trim_start().starts_with('S');
            } else if l.contains("ctxt_switches") {
                sig = mix(sig ^ l.split_whitespace().last().and_then(|x| x.parse().ok()).unwrap_or(0));
            }
        }
        if let Ok(s) = std::fs::read_to_string(format!("/proc/self/task/{t}/schedstat")) {
            cpu += s.split_whitespace().next().and_then(|x| x.parse::<u64>().ok()).unwrap_or(0);
        }
    }
    (asleep, sig, cpu)
}
