//! C24: documents are loaded only when they are dereferenced. In process a recording repository
//! notices every load outside a dereference; from outside, the opens of the real code are traced.

use std::cell::Cell;
use std::collections::BTreeMap;
use std::fs;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::sync::{Arc, Mutex};

use clap::Parser;
use plotline::deref::{TryDeref, With};
use plotline::document::lazy::LazyDocument;
use plotline::document::DocumentRepository;
use plotline::graph::{Graph, Source};
use plotline::id::Identify;
use plotline::prelude::{AfterDelete, AfterSave, BeforeDelete, BeforeSave, Ctx, Target, Transaction};
use plotline::property::Property;
use plotline::schema::ops::{delete::Delete, save::Save};
use plotline::schema::{Error, Schema};
use plotline_cli::document::{Document, DocumentCli};
use plotline_cli::CliCommand;
use vcommon::{mix, Case, Rng, Violation};

use crate::session::bin;
use crate::tree::{Kind, Scratch, Tree};

type R = Result<(), Violation>;

/// The dereference under way, if any: the document, and how often it was loaded so far.
#[derive(Clone, Debug, Default)]
struct Bracket {
    id: Option<PathBuf>,
    loads: usize,
}

#[derive(Debug, Default)]
struct Repo {
    bracket: Mutex<Bracket>,
    stray: Mutex<Vec<String>>,
    loads: Mutex<u64>,
    /// Documents that are not there.
    missing: Vec<PathBuf>,
}

impl DocumentRepository for Repo {
    type Document = Document;
    fn find_by_id(&self, id: &PathBuf) -> Option<Document> {
        let mut b = self.bracket.lock().unwrap();
        *self.loads.lock().unwrap() += 1;
        match &b.id {
            Some(x) if x == id && b.loads == 0 => {}
            Some(x) => self.stray.lock().unwrap().push(format!("document {id:?} is loaded (load number {}) while {x:?} is dereferenced", b.loads + 1)),
            None => self.stray.lock().unwrap().push(format!("document {id:?} is loaded although nothing is dereferenced")),
        }
        b.loads += 1;
        (!self.missing.contains(id)).then(|| Document { path: id.clone(), bytes: format!("content of {}", id.display()).into_bytes() })
    }
}

type Lazy = LazyDocument<Repo>;

thread_local! {
    /// Used by the edge property, which dereferences the node it is asked about.
    static REPO: Cell<Option<&'static Repo>> = const { Cell::new(None) };
}

/// Dereferences and returns (content, number of loads).
fn deref<'a>(repo: &Repo, d: &'a Lazy) -> (Option<&'a Document>, usize) {
    let before = std::mem::replace(&mut *repo.bracket.lock().unwrap(), Bracket { id: Some(d.id().clone()), loads: 0 });
    let x = d.try_deref();
    let b = std::mem::replace(&mut *repo.bracket.lock().unwrap(), before);
    (x, b.loads)
}

/// Edges written in the content: the documents named after it.
struct Next(PathBuf);
impl Identify for Next {
    type Id = PathBuf;
    fn id(&self) -> &PathBuf {
        &self.0
    }
}
impl Property<Lazy> for Next {
    fn all(source: &Lazy) -> Vec<Self> {
        let repo = REPO.with(|r| r.get()).expect("repo");
        let (d, _) = deref(repo, source);
        let n = d.map(|d| d.bytes.len()).unwrap_or(0);
        (0..n % 4).map(|i| Next(PathBuf::from(format!("d{}", (n + i) % 8)))).collect()
    }
}

#[derive(Parser)]
struct Line {
    #[command(subcommand)]
    sub: CliCommand,
}

fn in_process(c: &mut Case) -> R {
    let mut r = c.rng();
    let ids: Vec<PathBuf> = (0..8).map(|i| PathBuf::from(format!("d{i}"))).chain(["x/y", "a.b"].map(PathBuf::from)).collect();
    let missing = ids.iter().filter(|_| r.chance(20)).cloned().collect();
    let repo = Arc::new(Repo { missing, ..Default::default() });
    // The edge property has no other way to its repository; the leaked handle is put back below.
    let raw: &'static Repo = unsafe { &*Arc::as_ptr(&repo) };
    REPO.with(|x| x.set(Some(raw)));
    let mut log: Vec<String> = vec![];
    let res = program(c, &mut r, &repo, &ids, &mut log);
    REPO.with(|x| x.set(None));
    let stray = repo.stray.lock().unwrap().first().cloned();
    c.count("loads", *repo.loads.lock().unwrap());
    for l in &log {
        let mut h = 0;
        for b in l.bytes() {
            h = mix(h ^ b as u64);
        }
        c.mixh(h);
    }
    c.nontrivial = log.len() > 3;
    if let Some(m) = res.err().or(stray) {
        return Err(Violation::new(m, log.join("\n")));
    }
    Ok(())
}

fn program(c: &mut Case, r: &mut Rng, repo: &Arc<Repo>, ids: &[PathBuf], log: &mut Vec<String>) -> Result<(), String> {
    let build = LazyDocument::builder(repo.clone());
    let stray = |log: &Vec<String>| match repo.stray.lock().unwrap().first() {
        Some(m) => Err(format!("{m} (after {:?})", log.last())),
        None => Ok(()),
    };
    let fresh = |r: &mut Rng, log: &mut Vec<String>| -> Lazy {
        let id = r.pick(ids).clone();
        if r.chance(30) {
            log.push(format!("document {id:?} with its content"));
            LazyDocument::new(repo.clone(), Document { path: id, bytes: b"given".to_vec() })
        } else {
            log.push(format!("document {id:?} by id"));
            build(id)
        }
    };
    let mut pool: Vec<Lazy> = (0..2 + r.below(6)).map(|_| fresh(r, log)).collect();
    // Many more of the same repository, alive meanwhile.
    let crowd: Vec<Lazy> = (0..if r.chance(98) { 0 } else { *r.pick(&[40, 130, 600, 1100]) }).map(|i| build(PathBuf::from(i.to_string()))).collect();
    c.count("crowds", !crowd.is_empty() as u64);
    for _ in 0..r.below(12) {
        c.count("operations", 1);
        match r.below(6) {
            0 => {
                let d = fresh(r, log);
                pool.push(d);
            }
            1 => {
                let d = r.pick(&pool).clone();
                log.push(format!("copy {:?}", d.id()));
                pool.push(d);
            }
            2 | 3 => {
                let d = r.pick(&pool);
                log.push(format!("dereference {:?}", d.id()));
                let (x, n) = deref(repo, d);
                let found = x.is_some();
                c.count("dereferences", 1);
                stray(log)?;
                let (y, m) = deref(repo, d);
                stray(log)?;
                if found && m > 0 {
                    return Err(format!("document {:?} is loaded again although it is there", d.id()));
                }
                if found && r.chance(40) {
                    log.push("and a copy of it".into());
                    let copy = d.clone();
                    let (z, m) = deref(repo, &copy);
                    stray(log)?;
                    if m > 0 || z.is_none() {
                        return Err(format!("a copy of the loaded document {:?} is loaded again", d.id()));
                    }
                }
                if n > 1 || y.is_some() != found {
                    return Err(format!("dereferencing {:?} loads {n} times and gives {found} then {}", d.id(), y.is_some()));
                }
            }
            4 => {
                let i = r.below(pool.len());
                log.push(format!("drop {:?}", pool[i].id()));
                if pool.len() > 1 {
                    pool.swap_remove(i);
                }
            }
            _ => {
                let _: Vec<&PathBuf> = pool.iter().map(|d| d.id()).collect();
            }
        }
        stray(log)?;
    }
    // A graph of them.
    log.push("a graph of all of them".into());
    let mut g = if r.chance(50) { Graph::from_iter(pool.iter().cloned()) } else { pool.iter().cloned().fold(Graph::default(), |g, d| g.with_node(d)) };
    stray(log)?;
    for _ in 0..r.below(8) {
        c.count("operations", 1);
        let id = r.pick(ids).clone();
        match r.below(6) {
            0 => {
                log.push(format!("insert {id:?}"));
                g.insert(build(id));
            }
            1 => {
                log.push(format!("remove {id:?}"));
                g.remove(&id);
            }
            2 => {
                log.push(format!("look up {id:?}"));
                let _ = (g.get(&id).is_some(), g.contains(&id));
            }
            3 => {
                log.push(format!("handle {id:?}"));
                let n = g.node(id);
                let _ = (n.is_virtual(), n.try_deref().is_some(), n.clone().try_deref().map(|d| d.id().clone()));
            }
            4 => {
                log.push("iterate".into());
                c.count("iterations", 1);
                let _ = (&g).into_iter().map(|d| d.id().clone()).count();
            }
            _ => {
                log.push(format!("successors of {id:?}"));
                c.count("walks", 1);
                let before = *repo.loads.lock().unwrap();
                let n = g.node(id);
                let held = n.try_deref().is_some();
                let next = n.successors::<Next>();
                let loaded = *repo.loads.lock().unwrap() - before;
                if loaded > held as u64 {
                    return Err(format!("walking one step from {:?} loads {loaded} documents", n.id));
                }
                let _ = next.iter().map(|s| (s.is_virtual(), s.try_deref().is_some())).count();
                let again = *repo.loads.lock().unwrap() - before;
                if again != loaded {
                    return Err("looking at the successors' handles loads documents".into());
                }
            }
        }
        stray(log)?;
    }
    // A schema around it.
    fn look(_: Ctx<Lazy>, t: Target<Lazy>) -> plotline::schema::Result<()> {
        t.with(|d| d.id().clone());
        Ok(())
    }
    let mut schema: Schema<Lazy> = Schema::from(g);
    if r.chance(60) {
        schema = schema.with_trigger(BeforeSave, look).with_trigger(AfterSave, look).with_trigger(BeforeDelete, look).with_trigger(AfterDelete, look);
    }
    let schema = Arc::new(schema);
    let cli = DocumentCli { schema: schema.clone(), document_repo: repo.clone() };
    for _ in 0..1 + r.below(8) {
        c.count("operations", 1);
        let id = r.pick(ids).clone();
        let doc = fresh(r, log);
        match r.below(7) {
            0 => {
                log.push(format!("save operation {:?}", doc.id()));
                let _ = Save::new(doc).execute(schema.transaction());
                c.count("saves", 1);
            }
            1 => {
                log.push(format!("delete operation {id:?}"));
                let _ = Delete::new(id).execute(schema.transaction());
                c.count("deletes", 1);
            }
            2 => {
                let fail = r.chance(40);
                log.push(format!("transaction around {id:?}, fails: {fail}"));
                c.count("transactions", 1);
                let _ = schema.transaction().with(|ctx| {
                    ctx.save(doc.clone());
                    let _ = (ctx.contains(&id), ctx.get(&id).is_some(), ctx.node(id.clone()).try_deref().is_some());
                    let _ = ctx.transaction().with(|sub| {
                        sub.delete(id.clone());
                        let _ = sub.node(doc.id().clone()).is_virtual();
                        if fail { Err(Error::custom("no")) } else { Ok(()) }
                    });
                    let _ = Save::new(doc.clone()).execute(ctx.transaction());
                    let _ = Delete::new(id.clone()).execute(ctx.transaction());
                    if fail { Err(Error::custom("no")) } else { Ok(()) }
                });
            }
            3 => {
                log.push("read access".into());
                let g = schema.read();
                let _ = (&*g).into_iter().map(|d| d.id().clone()).count();
            }
            4 => {
                log.push(format!("write access, {id:?}"));
                let mut g = schema.write();
                g.remove(&id);
                g.insert(doc);
            }
            n => {
                let mut words: Vec<String> = vec!["doc".into(), id.display().to_string()];
                if n == 5 {
                    words.push("save".into());
                    if r.chance(60) {
                        words.push(r.pick(&["text", "", "a\nb", "d1"]).to_string());
                    }
                } else {
                    words.push("delete".into());
                }
                if r.chance(8) {
                    words.remove(1);
                }
                log.push(format!("command {words:?}"));
                c.count("commands", 1);
                let argv = std::iter::once("plot".to_string()).chain(words);
                if let Ok(l) = Line::try_parse_from(argv) {
                    let CliCommand::Doc(cmd) = l.sub;
                    let _ = catch_unwind(AssertUnwindSafe(|| cli.execute(cmd)));
                }
            }
        }
        stray(log)?;
    }
    // What is in the graph still loads, each once and alone.
    let g = schema.read();
    let mut seen: BTreeMap<PathBuf, bool> = BTreeMap::new();
    for d in &*g {
        let (x, n) = deref(repo, d);
        seen.insert(d.id().clone(), x.is_some());
        if n > 1 {
            return Err(format!("dereferencing {:?} loads {n} times", d.id()));
        }
        stray(log)?;
        c.count("dereferences", 1);
    }
    drop(g);
    Ok(())
}

/// The documents' files a trace opened (successfully or not), in order.
fn opened(trace: &str, root: &Path, t: &Tree) -> Vec<PathBuf> {
    let mut v = vec![];
    for line in trace.lines() {
        let Some((call, rest)) = line.split_once('(') else { continue };
        let call = call.trim_start_matches(|c: char| c.is_ascii_digit() || c == ' ');
        if !call.starts_with("open") && call != "creat" {
            continue;
        }
        let Some(p) = rest.split('"').nth(1) else { continue };
        let p = Path::new(p);
        for e in &t.entries {
            if e.kind.bytes().is_some() && t.id_of(&e.rel).is_some() && (p == root.join(&e.rel) || p == e.rel) {
                v.push(e.rel.clone());
            }
        }
    }
    v
}

fn traced(c: &mut Case) -> R {
    let mut r = c.rng();
    let s = Scratch::new();
    let mut t = Tree::generate(&mut r, false, false, false);
    for i in 0..1 + r.below(5) {
        t.entries.retain(|e| e.rel != Path::new(&format!("extra{i}.md")));
        t.entries.push(crate::tree::Entry { rel: format!("extra{i}.md").into(), kind: Kind::File(vec![b'x'; r.below(5000)]) });
    }
    let root = s.0.join("up/base");
    t.write(&root).expect("tree");
    let docs = t.documents();
    let out = s.0.join("trace");
    let strace = |program: PathBuf, args: &[std::ffi::OsString]| {
        let o = Command::new("strace")
            .args(["-f", "-qq", "-s", "4096", "-e", "trace=open,openat,openat2,creat", "-o"])
            .arg(&out)
            .arg(program)
            .args(args)
            .current_dir(&s.0)
            .env("HOME", s.0.join("home"))
            .env_remove("RUST_LOG")
            .stdin(Stdio::null())
            .output()
            .expect("strace");
        let text = fs::read_to_string(&out).unwrap_or_default();
        let _ = fs::remove_file(&out);
        (o, text)
    };
    c.nontrivial = true;
    for (d, b) in &docs {
        let mut h = b.len() as u64;
        for x in d.to_string_lossy().bytes() {
            h = mix(h ^ x as u64);
        }
        c.mixh(h);
    }
    if r.chance(50) {
        // A command of the tool.
        let id = if r.chance(70) { r.pick(&docs).0.to_string_lossy().into_owned() } else { "absent".to_string() };
        let args: Vec<String> = match r.below(5) {
            0 | 1 => vec!["doc".into(), "list".into()],
            2 => vec!["doc".into(), id, "save".into(), "new".into()],
            3 => vec!["doc".into(), id, "save".into()],
            _ => vec!["doc".into(), id, "delete".into()],
        };
        let mut v: Vec<std::ffi::OsString> = vec!["-C".into(), root.clone().into()];
        v.extend(args.iter().map(Into::into));
        let (_, text) = strace(bin("plotline"), &v);
        if !text.contains("open") {
            c.count("traces_unavailable", 1);
            return Ok(());
        }
        c.count("traced_commands", 1);
        c.count("traced_opens", text.lines().count() as u64);
        for x in &args {
            c.mixh(x.len() as u64);
        }
        let own = match args.last().map(String::as_str) {
            // Writing its own document is the command's business.
            Some("new" | "save" | "delete") => Some(PathBuf::from(format!("{}.md", args[1]))),
            _ => None,
        };
        if let Some(x) = opened(&text, &root, &t).iter().find(|x| Some(*x) != own.as_ref()) {
            return Err(Violation::new(format!("{args:?} opens document file {x:?}, which it has no need of"), t.show()));
        }
        return Ok(());
    }
    // The repository itself: list, then load some, with markers in between.
    let picks: Vec<PathBuf> = (0..1 + r.below(4)).map(|_| r.pick(&docs).0.clone()).collect();
    let mut v: Vec<std::ffi::OsString> = vec![root.clone().into(), "md".into()];
    v.extend(picks.iter().map(Into::into));
    let (o, text) = strace(bin("loader"), &v);
    if !text.contains("marker-0") || !o.status.success() {
        if !o.status.success() {
            return Err(Violation::new(format!("listing and loading {picks:?} fails: {}", String::from_utf8_lossy(&o.stderr)), t.show()));
        }
        c.count("traces_unavailable", 1);
        return Ok(());
    }
    c.count("traced_loads", picks.len() as u64);
    let mut parts: Vec<String> = vec![String::new()];
    for l in text.lines() {
        if l.contains("/verif-marker-") {
            parts.push(String::new());
        } else {
            let p = parts.last_mut().unwrap();
            p.push_str(l);
            p.push('\n');
        }
    }
    let mut had: Vec<&PathBuf> = vec![];
    for (i, p) in parts.iter().enumerate() {
        let got = opened(p, &root, &t);
        // Part 0: listing. Part k: loading pick k - 1. Last: putting everything away.
        let want: Vec<PathBuf> = match i {
            0 => vec![],
            i if i <= picks.len() && !had.contains(&&picks[i - 1]) => vec![PathBuf::from(format!("{}.md", picks[i - 1].display()))],
            _ => vec![],
        };
        if i >= 1 && i <= picks.len() {
            had.push(&picks[i - 1]);
        }
        if got != want {
            let what = if i == 0 { "listing".to_string() } else { format!("dereference number {i} ({:?})", picks.get(i - 1)) };
            return Err(Violation::new(format!("{what} opens document files {got:?} instead of {want:?}"), format!("{picks:?}\n{}", t.show())));
        }
    }
    Ok(())
}

pub fn c24(c: &mut Case) -> R {
    if c.idx % 40 == 39 {
        traced(c)
    } else {
        in_process(c)
    }
}
