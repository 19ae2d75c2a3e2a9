//! C12: lazy documents. Every find call returns a document with a fresh version number and is
//! recorded on a global clock, so a history checker can tell which load each dereference observed.

use std::collections::VecDeque;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicU64, AtomicUsize, Ordering};
use std::sync::{Arc, Barrier, Mutex};

use plotline::deref::TryDeref;
use plotline::document::lazy::LazyDocument;
use plotline::document::DocumentRepository;
use plotline::id::Identify;
use vcommon::{Case, Rng, Violation};

#[derive(Clone, Debug, PartialEq)]
pub struct Doc {
    pub id: String,
    pub version: u64,
}
impl Identify for Doc {
    type Id = String;
    fn id(&self) -> &String {
        &self.id
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Answer {
    Found,
    Miss,
    Panic,
}

#[derive(Clone, Debug)]
struct Find {
    thread: usize,
    at: u64,
    answer: Option<u64>,
}

struct Repo {
    clock: AtomicU64,
    version: AtomicU64,
    finds: Mutex<Vec<Find>>,
    /// Scripted answers, used one per call; then `default`.
    script: Mutex<VecDeque<Answer>>,
    default: Answer,
    /// Number of callers that must be inside find at once before any returns (bounded wait).
    gate: usize,
    inside: AtomicUsize,
    asked: Mutex<Vec<String>>,
}

thread_local! {
    static ME: std::cell::Cell<usize> = const { std::cell::Cell::new(0) };
}

impl Repo {
    fn new(script: Vec<Answer>, default: Answer, gate: usize) -> Arc<Self> {
        Arc::new(Repo {
            clock: AtomicU64::new(1),
            version: AtomicU64::new(1),
            finds: Mutex::new(vec![]),
            script: Mutex::new(script.into()),
            default,
            gate,
            inside: AtomicUsize::new(0),
            asked: Mutex::new(vec![]),
        })
    }
    fn tick(&self) -> u64 {
        self.clock.fetch_add(1, Ordering::SeqCst)
    }
}

impl DocumentRepository for Repo {
    type Document = Doc;
    fn find_by_id(&self, id: &String) -> Option<Doc> {
        let answer = self.script.lock().unwrap().pop_front().unwrap_or(self.default);
        self.asked.lock().unwrap().push(id.clone());
        if self.gate > 1 {
            self.inside.fetch_add(1, Ordering::SeqCst);
            // Bounded rendezvous: widen the window in which several threads are loading.
            for _ in 0..200 {
                if self.inside.load(Ordering::SeqCst) >= self.gate {
                    break;
                }
                std::thread::yield_now();
            }
        }
        let v = (answer == Answer::Found).then(|| self.version.fetch_add(1, Ordering::SeqCst));
        let at = self.tick();
        self.finds.lock().unwrap().push(Find { thread: ME.with(|m| m.get()), at, answer: v });
        if answer == Answer::Panic {
            std::panic::resume_unwind(Box::new("find panics"));
        }
        v.map(|version| Doc { id: id.clone(), version })
    }
}

#[derive(Clone, Debug)]
struct Deref {
    thread: usize,
    start: u64,
    end: u64,
    /// Err: the call panicked.
    got: Result<Option<(String, u64)>, ()>,
    addr: usize,
}

fn deref(repo: &Repo, d: &LazyDocument<Repo>, t: usize) -> Deref {
    ME.with(|m| m.set(t));
    let start = repo.tick();
    let r = catch_unwind(AssertUnwindSafe(|| {
        d.try_deref().map(|x| ((x.id.clone(), x.version), x as *const Doc as usize))
    }));
    let end = repo.tick();
    let addr = r.as_ref().ok().and_then(|o| o.as_ref().map(|x| x.1)).unwrap_or(0);
    Deref { thread: t, start, end, got: r.map(|o| o.map(|x| x.0)).map_err(|_| ()), addr }
}

/// The oracle: `initial` is the document the value held at the beginning of the history.
fn check(id: &str, hist: &[Deref], finds: &[Find], initial: Option<u64>) -> Result<u64, String> {
    let mut given: Option<u64> = initial;
    // The document is fixed: all that were given are the same.
    for d in hist {
        if let Ok(Some((i, v))) = &d.got {
            if i != id {
                return Err(format!("a dereference gave document {i:?} instead of {id:?}"));
            }
            match given {
                Some(g) if g != *v => return Err(format!("dereferences gave two documents, versions {g} and {v}")),
                _ => given = Some(*v),
            }
        }
    }
    let first_end = if initial.is_some() {
        Some(0)
    } else {
        hist.iter().filter(|d| matches!(d.got, Ok(Some(_)))).map(|d| d.end).min()
    };
    let addr = hist.iter().map(|d| d.addr).find(|a| *a != 0);
    let mut late = 0;
    for d in hist {
        if d.addr != 0 && Some(d.addr) != addr {
            return Err("dereferences gave references to different documents".into());
        }
        let mine: Vec<&Find> = finds.iter().filter(|f| f.thread == d.thread && f.at > d.start && f.at < d.end).collect();
        let after = first_end.is_some_and(|e| e < d.start);
        if after {
            late += 1;
            if !mine.is_empty() {
                return Err(format!("a dereference that began after the document was given consulted the repository again ({d:?})"));
            }
            if !matches!(d.got, Ok(Some(_))) {
                return Err(format!("a dereference that began after the document was given did not give it ({d:?})"));
            }
        }
        match &d.got {
            Ok(None) if mine.is_empty() => {
                return Err(format!("a dereference gave nothing without asking the repository ({d:?})"));
            }
            Ok(None) if mine.iter().all(|f| f.answer.is_some()) => {
                return Err(format!("a dereference gave nothing although the repository had the document ({d:?}, {mine:?})"));
            }
            Ok(Some((_, v))) if initial.is_none() && !finds.iter().any(|f| f.answer == Some(*v)) => {
                return Err(format!("a dereference gave version {v}, which no load returned"));
            }
            Ok(Some((_, v))) if initial.is_none() && !finds.iter().any(|f| f.answer == Some(*v) && f.at < d.end) => {
                return Err(format!("a dereference gave version {v} before it was loaded"));
            }
            _ => {}
        }
    }
    Ok(late)
}

fn script(r: &mut Rng, n: usize, miss: u32, panic: u32) -> Vec<Answer> {
    (0..n)
        .map(|_| if r.chance(miss) { Answer::Miss } else if r.chance(panic) { Answer::Panic } else { Answer::Found })
        .collect()
}

fn vio(msg: String, hist: &[Deref], finds: &[Find]) -> Violation {
    let mut lines: Vec<(u64, String)> = vec![];
    for d in hist {
        lines.push((d.start, format!("t{} deref begins", d.thread)));
        lines.push((d.end, format!("t{} deref ends: {:?}", d.thread, d.got)));
    }
    for f in finds {
        lines.push((f.at, format!("t{} repository answers {:?}", f.thread, f.answer)));
    }
    lines.sort();
    Violation::new(msg, lines.into_iter().map(|(t, l)| format!("{t}: {l}")).collect::<Vec<_>>().join("\n"))
}

/// One thread: builders, documents built from values, clones, misses and panics.
pub fn sequential(c: &mut Case) -> Result<(), Violation> {
    let mut r = c.rng();
    let n = 5 + r.below(25);
    let (miss, pan) = (*r.pick(&[0, 20, 60]), *r.pick(&[0, 0, 20]));
    let default = if r.chance(70) { Answer::Found } else { Answer::Miss };
    let repo = Repo::new(script(&mut r, n, miss, pan), default, 0);
    struct L {
        d: LazyDocument<Repo>,
        id: String,
        hist: Vec<Deref>,
        initial: Option<u64>,
    }
    let mut ls: Vec<L> = vec![];
    let builder = LazyDocument::builder(repo.clone());
    // Many others of the same repository alive: they make no difference.
    let crowd: Vec<LazyDocument<Repo>> = (0..if r.chance(96) { 0 } else if cfg!(miri) { 9 } else { *r.pick(&[40, 70, 140, 300, 600, 1100]) })
        .map(|i| if i % 3 == 0 { LazyDocument::new(repo.clone(), Doc { id: i.to_string(), version: i }) } else { builder(i.to_string()) })
        .collect();
    c.count("crowds", !crowd.is_empty() as u64);
    // Finds are attributed by giving each document its own logical thread number.
    for step in 0..n {
        match r.below(6) {
            0 | 1 => {
                let id = format!("doc-{}-{}", ls.len(), r.below(1000));
                let asked = repo.asked.lock().unwrap().len();
                if r.chance(65) {
                    ls.push(L { d: builder(id.clone()), id, hist: vec![], initial: None });
                } else {
                    let v = 1_000_000 + step as u64;
                    ls.push(L { d: LazyDocument::new(repo.clone(), Doc { id: id.clone(), version: v }), id, hist: vec![], initial: Some(v) });
                    c.count("built_from_document", 1);
                }
                if repo.asked.lock().unwrap().len() != asked {
                    return Err(Violation::new("building a lazy document consulted the repository", format!("{:?}", repo.asked.lock().unwrap())));
                }
            }
            2 if !ls.is_empty() => {
                let i = r.below(ls.len());
                let asked = repo.asked.lock().unwrap().len();
                let d = ls[i].d.clone();
                if repo.asked.lock().unwrap().len() != asked {
                    return Err(Violation::new("copying a lazy document consulted the repository", String::new()));
                }
                let initial = ls[i].initial.or_else(|| {
                    ls[i].hist.iter().find_map(|d| match &d.got {
                        Ok(Some((_, v))) => Some(*v),
                        _ => None,
                    })
                });
                c.count("copies", 1);
                c.count("copies_of_loaded", initial.is_some() as u64);
                let id = ls[i].id.clone();
                ls.push(L { d, id, hist: vec![], initial });
            }
            _ if !ls.is_empty() => {
                let i = r.below(ls.len());
                if ls[i].d.id() != &ls[i].id {
                    return Err(Violation::new(format!("id() is {:?}, expected {:?}", ls[i].d.id(), ls[i].id), String::new()));
                }
                let asked = repo.asked.lock().unwrap().len();
                let mut h = deref(&repo, &ls[i].d, i);
                h.addr = 0; // the document moves with the list
                c.count("dereferences", 1);
                c.count("misses", matches!(h.got, Ok(None)) as u64);
                c.count("find_panics", h.got.is_err() as u64);
                c.mixh(match &h.got {
                    Ok(Some((_, v))) => *v,
                    Ok(None) => 0,
                    Err(_) => 7777,
                });
                let asked: Vec<String> = repo.asked.lock().unwrap()[asked..].to_vec();
                if let Some(x) = asked.iter().find(|x| **x != ls[i].id) {
                    return Err(Violation::new(format!("document {:?} asked the repository for {x:?}", ls[i].id), String::new()));
                }
                ls[i].hist.push(h);
                let finds = repo.finds.lock().unwrap().clone();
                let mine: Vec<Find> = finds.iter().filter(|f| f.thread == i).cloned().collect();
                match check(&ls[i].id, &ls[i].hist, &mine, ls[i].initial) {
                    Ok(late) => c.count("late_dereferences", (late > 0) as u64),
                    Err(m) => return Err(vio(m, &ls[i].hist, &mine)),
                }
            }
            _ => {}
        }
    }
    c.nontrivial = true;
    Ok(())
}

/// Several threads dereference one document at once; most of them load at the same time.
pub fn threads(c: &mut Case, threads: usize) -> Result<(), Violation> {
    let mut r = c.rng();
    let gate = if r.chance(80) { 2 + r.below(threads) } else { 0 };
    let (miss, pan) = (*r.pick(&[0, 0, 30]), *r.pick(&[0, 0, 25]));
    let default = if r.chance(85) { Answer::Found } else { Answer::Miss };
    let repo = Repo::new(script(&mut r, threads, miss, pan), default, gate);
    let id = "shared".to_string();
    let preset = r.chance(10);
    let doc = if preset {
        LazyDocument::new(repo.clone(), Doc { id: id.clone(), version: 999 })
    } else {
        LazyDocument::builder(repo.clone())(id.clone())
    };
    let bar = Barrier::new(threads);
    let tok = c.thread_token();
    let per = 1 + r.below(3);
    // Some threads work on a copy, taken while others load: it must hold the shared document or none.
    let copier = r.chance(30);
    let res: Vec<(Vec<Deref>, Option<Vec<Deref>>)> = std::thread::scope(|s| {
        let hs: Vec<_> = (0..threads)
            .map(|t| {
                let (doc, bar, repo, tok) = (&doc, &bar, &repo, tok.clone());
                s.spawn(move || {
                    tok.enter();
                    bar.wait();
                    if copier && t == 0 {
                        std::thread::yield_now();
                        let cp = doc.clone();
                        let h = (0..2).map(|_| deref(repo, &cp, 100)).collect();
                        return (vec![], Some(h));
                    }
                    ((0..per).map(|_| deref(repo, doc, t)).collect(), None)
                })
            })
            .collect();
        hs.into_iter().map(|h| h.join().unwrap()).collect()
    });
    let finds = repo.finds.lock().unwrap().clone();
    let mut hist: Vec<Deref> = res.iter().flat_map(|x| x.0.iter().cloned()).collect();
    hist.push(deref(&repo, &doc, 0));
    let all = repo.finds.lock().unwrap().clone();
    let mine: Vec<Find> = all.iter().filter(|f| f.thread < 100).cloned().collect();
    let initial = preset.then_some(999);
    c.count("dereferences", hist.len() as u64);
    c.count("concurrent_loads", (finds.len() > 1) as u64);
    c.max("max_concurrent_loads", finds.len() as u64);
    c.mixh(finds.len() as u64 * 1000 + hist.iter().filter(|d| matches!(d.got, Ok(None))).count() as u64);
    for d in &hist {
        c.mixh(d.thread as u64 ^ d.start << 8 ^ d.end << 32);
    }
    match check(&id, &hist, &mine, initial) {
        Ok(late) => c.count("late_dereferences", late),
        Err(m) => return Err(vio(m, &hist, &all)),
    }
    for h in res.iter().filter_map(|x| x.1.as_ref()) {
        let given = hist.iter().find_map(|d| d.got.as_ref().ok().and_then(|g| g.as_ref().map(|x| x.1)));
        let cfinds: Vec<Find> = all.iter().filter(|f| f.thread == 100).cloned().collect();
        let vs: Vec<u64> = h.iter().filter_map(|d| d.got.as_ref().ok().and_then(|g| g.as_ref().map(|x| x.1))).collect();
        let ok = vs.windows(2).all(|w| w[0] == w[1])
            && vs.iter().all(|v| Some(*v) == given || cfinds.iter().any(|f| f.answer == Some(*v)))
            && h.iter().all(|d| !matches!(d.got, Ok(None)) || cfinds.iter().any(|f| f.answer.is_none()));
        c.count("concurrent_copies", 1);
        if !ok {
            return Err(vio(format!("a copy taken during loading gave {h:?}"), &hist, &all));
        }
    }
    c.nontrivial = finds.len() > 1 || preset;
    if c.idx < 12 {
        c.sample = Some(format!("{threads} threads, preset {preset}; loads {all:?}; dereferences {hist:?}"));
    }
    Ok(())
}

pub fn c12(c: &mut Case) -> Result<(), Violation> {
    if c.idx % 2 == 0 {
        sequential(c)
    } else {
        let n = 2 + (c.seed % 5) as usize;
        threads(c, n)
    }
}
