//! C13 and C14: what the local repository lists and loads.

use std::ffi::OsString;
use std::os::unix::ffi::{OsStrExt, OsStringExt};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::{Path, PathBuf};
use std::sync::Arc;

use plotline::deref::TryDeref;
use plotline::document::lazy::LazyDocument;
use plotline::document::DocumentRepository;
use plotline::graph::{Graph, Source};
use plotline::id::Identify;
use plotline_cli::repository::LocalDocumentRepository;
use vcommon::{mix, Case, Rng, Violation};

use crate::tree::{linked, Kind, Scratch, Tree};

type R = Result<(), Violation>;
type Lazy = LazyDocument<LocalDocumentRepository>;

fn hash(c: &mut Case, b: &[u8]) {
    let mut h = 0u64;
    for x in b {
        h = mix(h ^ *x as u64);
    }
    c.mixh(h);
}

/// The base directory, under one of several spellings and names.
fn base(r: &mut Rng, s: &Scratch, t: &Tree) -> (PathBuf, PathBuf) {
    let ext = &t.ext;
    if !t.above.is_empty() {
        let p = s.0.join("up/base");
        return (p.clone(), p);
    }
    let name = if r.chance(50) { crate::tree::base_name(r, ext) } else { "base".into() };
    let real = s.0.join("up").join(&name);
    let mut spelled = real.clone().into_os_string();
    let rel = std::env::current_dir().ok().and_then(|d| real.strip_prefix(d).map(Path::to_owned).ok());
    match r.below(9) {
        2 | 3 if rel.is_some() => spelled = rel.unwrap().into_os_string(),
        4 if rel.is_some() => spelled = Path::new(".").join(rel.unwrap()).into_os_string(),
        5 => {
            // Through a link.
            let l = s.0.join("link");
            std::os::unix::fs::symlink(&real, &l).expect("link");
            spelled = l.into_os_string();
        }
        0 => spelled.push("/"),
        1 => spelled = s.0.join("up/./").join(&name).into_os_string(),
        _ => {}
    }
    (real, PathBuf::from(spelled))
}

fn list(repo: &Arc<LocalDocumentRepository>, t: &Tree) -> Result<Vec<Lazy>, Violation> {
    catch_unwind(AssertUnwindSafe(|| repo.all().collect::<Vec<_>>()))
        .map_err(|_| Violation::new(format!("listing with extension {:?} panics: {}", t.ext, vcommon::last_panic()), t.show()))
}

pub fn c13(c: &mut Case) -> R {
    let mut r = c.rng();
    let s = Scratch::new();
    let odd = r.chance(30);
    let t = Tree::generate(&mut r, true, odd, true);
    let (root, spelled) = base(&mut r, &s, &t);
    t.write(&root).map_err(|e| e.to_string()).expect("tree");
    let repo = Arc::new(LocalDocumentRepository { context: spelled.clone(), extension: t.ext.clone() });
    let Ok(docs) = catch_unwind(AssertUnwindSafe(|| repo.all().collect::<Vec<_>>())) else {
        c.count("listing_panics", 1); // C14's business
        return Ok(());
    };
    hash(c, t.ext.as_bytes());
    let bad = |m: String| Err(Violation::new(m, format!("base {spelled:?}\n{}", t.show())));
    for d in &docs {
        let id = d.id().clone();
        // The file that produced the entry: the id with a dot and the extension appended.
        let file = t.entries.iter().find(|e| t.id_of(&e.rel).is_some_and(|i| i == id));
        let want = match file.map(|f| &f.kind) {
            // Whether such links are listed is C14's business; if they are, they load.
            Some(Kind::LinkToFile) => Some(linked()),
            k => k.and_then(|k| k.bytes()).cloned(),
        };
        c.count("linked_documents", file.is_some_and(|f| f.kind == Kind::LinkToFile) as u64);
        c.count("documents_loaded", 1);
        c.count("ids_with_dots", id.as_os_str().as_bytes().contains(&b'.') as u64);
        c.count("non_utf8_ids", id.to_str().is_none() as u64);
        c.count("nested_ids", (id.components().count() > 1) as u64);
        hash(c, id.as_os_str().as_bytes());
        c.mixh(want.as_ref().map(|w| w.len() as u64).unwrap_or(1 << 50));
        let Some(doc) = d.try_deref() else {
            return bad(format!("listed document {id:?} does not load"));
        };
        let Some(want) = want else {
            return bad(format!("listed document {id:?} comes from no file of the tree, but loads {} bytes", doc.bytes.len()));
        };
        if doc.bytes != want {
            return bad(format!("document {id:?} loads {} bytes that are not its file's {} bytes", doc.bytes.len(), want.len()));
        }
        if doc.id() != &id {
            return bad(format!("document {id:?} loads as a document with id {:?}", doc.id()));
        }
        if d.try_deref().map(|x| x as *const _) != Some(doc as *const _) {
            return bad(format!("document {id:?} is loaded again"));
        }
    }
    // Through a graph, as the tool does it.
    let ids: Vec<PathBuf> = docs.iter().map(|d| d.id().clone()).collect();
    let g = Graph::from_iter(docs);
    for id in ids.iter().take(4) {
        let got = g.get(id).and_then(|d| d.try_deref().map(|x| (x.id().clone(), x.bytes.clone())));
        let want = t.entries.iter().filter(|e| t.id_of(&e.rel).as_ref() == Some(id)).find_map(|e| match &e.kind {
            Kind::LinkToFile => Some((id.clone(), linked())),
            k => Some((id.clone(), k.bytes()?.clone())),
        });
        if got != want {
            return bad(format!("document {id:?} taken from the graph loads {:?}", got.map(|g| (g.0, g.1.len()))));
        }
    }
    // Ids with no file.
    for _ in 0..6 {
        let id: PathBuf = match r.below(6) {
            0 => "no-such-document".into(),
            1 => t.entries.get(r.below(t.entries.len().max(1))).map(|e| e.rel.clone()).unwrap_or("x".into()),
            2 => ids.get(r.below(ids.len().max(1))).map(|i| i.join("below")).unwrap_or("y".into()),
            3 => ids.get(r.below(ids.len().max(1))).map(|i| i.with_extension("")).unwrap_or("z".into()),
            4 => ids.get(r.below(ids.len().max(1))).map(|i| i.with_extension("other")).unwrap_or("w".into()),
            _ => "nodir/none".into(),
        };
        let mut p = id.clone().into_os_string();
        p.push(format!(".{}", t.ext));
        let entry = t.entries.iter().find(|e| e.rel == Path::new(&p));
        if entry.is_some_and(|e| matches!(e.kind, Kind::Fifo | Kind::LinkToFile | Kind::LinkToDir)) {
            continue; // Not asked: opening a pipe waits for a writer.
        }
        let want = entry.and_then(|e| e.kind.bytes()).cloned();
        let got = repo.find_by_id(&id);
        c.count(if want.is_some() { "present_ids" } else { "absent_ids" }, 1);
        if got.as_ref().map(|g| &g.bytes) != want.as_ref() {
            return bad(format!("loading id {id:?} gives {:?} bytes, its file has {:?}", got.map(|g| g.bytes.len()), want.map(|w| w.len())));
        }
        if let Some(g) = got {
            if g.id() != &id {
                return bad(format!("loading id {id:?} gives a document with id {:?}", g.id()));
            }
        }
    }
    c.nontrivial = !ids.is_empty();
    if c.idx < 6 {
        c.sample = Some(t.show());
    }
    Ok(())
}

/// Gives some files a size, mode or time that is out of the ordinary (the sizes are holes).
fn make_unusual(r: &mut Rng, t: &Tree, root: &Path) -> u64 {
    use std::os::unix::fs::PermissionsExt;
    use std::time::{Duration, SystemTime};
    let mut n = 0;
    if !r.chance(35) {
        return n;
    }
    for e in &t.entries {
        if !matches!(e.kind, Kind::File(_)) || !r.chance(35) {
            continue;
        }
        let path = root.join(&e.rel);
        let Ok(f) = std::fs::OpenOptions::new().write(true).open(&path) else { continue };
        n += match r.below(4) {
            0 => f.set_len(r.pick(&[1 << 16, (1 << 20) + 1, 9 << 20, (2u64 << 30) + 5, 5 << 30, 1 << 36])+ r.below(3) as u64).is_ok(),
            1 => f.set_permissions(std::fs::Permissions::from_mode(*r.pick(&[0o000, 0o111, 0o777, 0o4755, 0o1644, 0o200]))).is_ok(),
            2 => f.set_modified(SystemTime::UNIX_EPOCH + Duration::from_secs(*r.pick(&[0, 1, 1 << 31, 1 << 33]))).is_ok(),
            _ => f.set_len(0).is_ok(),
        } as u64;
    }
    n
}

pub fn c14(c: &mut Case) -> R {
    let mut r = c.rng();
    let s = Scratch::new();
    let mut t = Tree::generate(&mut r, true, true, true);
    if c.idx % 300 == 299 && !t.ext.contains('/') {
        t.crowd(&mut r);
        c.count("crowded_trees", 1);
    }
    let (root, spelled) = base(&mut r, &s, &t);
    t.write(&root).map_err(|e| e.to_string()).expect("tree");
    let unusual = make_unusual(&mut r, &t, &root);
    c.count("unusual_sizes_modes_times", unusual);
    let repo = Arc::new(LocalDocumentRepository { context: spelled.clone(), extension: t.ext.clone() });
    let docs = list(&repo, &t)?;
    let mut got: Vec<PathBuf> = docs.iter().map(|d| d.id().clone()).collect();
    got.sort();
    let want: Vec<PathBuf> = t.documents().into_iter().map(|x| x.0).collect();
    let opt = t.optional();
    hash(c, t.ext.as_bytes());
    for i in &got {
        hash(c, i.as_os_str().as_bytes());
    }
    let suffixed = |k: &dyn Fn(&Kind) -> bool| t.entries.iter().filter(|e| k(&e.kind) && t.id_of(&e.rel).is_some()).count() as u64;
    let files = suffixed(&|k| k.bytes().is_some());
    c.count("documents_listed", got.len() as u64);
    c.count("hidden_or_ignored", files - want.len() as u64);
    c.count("directories_with_the_extension", suffixed(&|k| *k == Kind::Dir));
    c.count("odd_files", suffixed(&|k| k.bytes().is_none() && *k != Kind::Dir));
    c.count("metacharacter_extensions", t.ext.chars().any(|x| "+([*$|^\\{?).".contains(x)) as u64);
    c.count("trees_with_ignore_files", !t.rules.is_empty() as u64);
    c.count("trees_with_ignore_files_above", !t.above.is_empty() as u64);
    c.count("second_names", suffixed(&|k| matches!(k, Kind::Hard(..))));
    c.max("deepest_document", want.iter().map(|w| w.components().count() as u64).max().unwrap_or(0));
    c.nontrivial = !t.entries.is_empty();
    let bad = |m: String| Err(Violation::new(m, format!("base {spelled:?}\n{}", t.show())));
    for w in &want {
        let from = got.partition_point(|g| g < w);
        match got[from..].iter().take_while(|g| *g == w).count() {
            1 => {}
            0 => return bad(format!("document {w:?} is not listed")),
            n => return bad(format!("document {w:?} is listed {n} times")),
        }
    }
    for g in &got {
        let at = want.binary_search(g);
        if at.is_err() && !opt.contains(g) {
            return bad(format!("{g:?} is listed and is no document"));
        }
        // The id is spelled exactly as the relative path.
        if let Some(w) = at.ok().map(|i| &want[i]) {
            if w.as_os_str() != g.as_os_str() {
                return bad(format!("id {g:?} is spelled differently from {w:?}"));
            }
        }
    }
    if r.chance(8) && t.entries.len() < 2000 {
        while_changing(c, &mut r, &t, &root, &repo)?;
    }
    if c.idx < 6 {
        c.sample = Some(t.show());
    }
    Ok(())
}

/// Lists while other files and directories come and go: what stays is listed exactly once.
fn while_changing(c: &mut Case, r: &mut Rng, t: &Tree, root: &Path, repo: &Arc<LocalDocumentRepository>) -> R {
    use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
    let dirs: Vec<PathBuf> = std::iter::once(root.to_owned()).chain(t.entries.iter().filter(|e| e.kind == Kind::Dir).map(|e| root.join(&e.rel))).collect();
    let (stop, changes) = (AtomicBool::new(false), AtomicU64::new(0));
    let want: Vec<PathBuf> = t.documents().into_iter().map(|x| x.0).collect();
    let opt = t.optional();
    let seed = r.u64();
    std::thread::scope(|sc| {
        sc.spawn(|| {
            let mut r = Rng::new(seed);
            let mut mine: Vec<(PathBuf, bool)> = vec![];
            while !stop.load(Ordering::Relaxed) {
                let n = changes.fetch_add(1, Ordering::Relaxed);
                match r.below(5) {
                    0 | 1 => {
                        let p = r.pick(&dirs).join(format!("churn{n}.{}", t.ext));
                        mine.push((p.clone(), false));
                        let _ = std::fs::write(p, b"x");
                    }
                    2 => {
                        let p = r.pick(&dirs).join(format!("churn{n}"));
                        mine.push((p.clone(), true));
                        let _ = std::fs::create_dir(&p);
                        for i in 0..3 {
                            let _ = std::fs::write(p.join(format!("churn{i}.{}", t.ext)), b"x");
                        }
                    }
                    k if !mine.is_empty() => {
                        let i = r.below(mine.len());
                        let (p, dir) = mine.swap_remove(i);
                        if k == 3 {
                            let to = r.pick(&dirs).join(format!("churn{n}.{}", t.ext));
                            let _ = std::fs::rename(&p, &to);
                            mine.push((to, dir));
                        } else if dir {
                            let _ = std::fs::remove_dir_all(&p);
                        } else {
                            let _ = std::fs::remove_file(&p);
                        }
                    }
                    _ => {}
                }
                if mine.len() > 40 {
                    let (p, dir) = mine.swap_remove(r.below(40));
                    let _ = if dir { std::fs::remove_dir_all(&p) } else { std::fs::remove_file(&p) };
                }
            }
        });
        let done = (|| {
            for _ in 0..4 {
                let at = changes.load(Ordering::Relaxed);
                let docs = list(repo, t)?;
                c.count("listings_while_changing", (changes.load(Ordering::Relaxed) > at) as u64);
                let bad = |m: String| Err(Violation::new(m, format!("base {root:?}, files named churn come and go\n{}", t.show())));
                let got: Vec<PathBuf> = docs.iter().map(|d| d.id().clone()).collect();
                for w in &want {
                    match got.iter().filter(|g| *g == w).count() {
                        1 => {}
                        0 => return bad(format!("while other files come and go, document {w:?} is not listed")),
                        n => return bad(format!("while other files come and go, document {w:?} is listed {n} times")),
                    }
                }
                for g in &got {
                    if !want.contains(g) && !opt.contains(g) && !g.components().any(|x| x.as_os_str().as_bytes().starts_with(b"churn")) {
                        return bad(format!("while other files come and go, {g:?} is listed and is no document"));
                    }
                }
            }
            Ok(())
        })();
        stop.store(true, Ordering::Relaxed);
        done
    })
}
