//! C28: which directory and which extension a command works on, however they are given.

use std::collections::{BTreeMap, BTreeSet};
use std::ffi::{OsStr, OsString};
use std::fs;
use std::os::unix::ffi::{OsStrExt, OsStringExt};
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};

use vcommon::{mix, Case, Rng, Violation};

use crate::session::bin;
use crate::tree::Scratch;

type R = Result<(), Violation>;

const EXTS: &[&str] = &["md", "txt", "markdown", "MD", "m", "tar.gz", "é", "a b", "-x", "d", "2", "=", "list", "+", "a=b", ".md", "*", "*.md", "md.", " md", "md ", "Md", "mD", "..", "md.md"];
const NAMES: &[&str] = &["a", "b", "c", "notes", "a.b", "sub/a", "sub/deep/b", "sp ace", "é", "0", "x-y", "README", "doc", "sub/list"];
const DIRS: &[&str] = &["one", "two", "one/inner", "with space", "é", "-dash", "a=b", "doc", "list", "md", "one.md", "two/inner", "one/inner/inner", "inner", "~", "~root", "~/x", "$HOME", "${HOME}", " lead", "trail ", "a:b", "a,b", "*", "ONE", "%41", "a;b", "[o]ne", "{one,two}", "one?", "a\\b", "'q'", "#x", "!", "one|two", "0", "con", "file:", "x\ny", "@one", "null"];

/// The options of one command, as arguments that stay together.
fn spelled(r: &mut Rng, short: &str, long: &str, value: &OsStr) -> Vec<OsString> {
    let joined = |a: &str| {
        let mut v = OsString::from(a);
        v.push(value);
        vec![v]
    };
    let starts = value.as_bytes().first().copied();
    let apart = starts != Some(b'-') && !["doc", "list", "ls", "save", "delete", "help"].iter().any(|w| value == *w);
    loop {
        match r.below(5) {
            // A value that looks like an option or a command has to be joined to its own.
            0 if apart => return vec![short.into(), value.to_owned()],
            1 if apart => return vec![long.into(), value.to_owned()],
            2 if starts != Some(b'=') => return joined(short),
            3 => return joined(&format!("{short}=")),
            4 => return joined(&format!("{long}=")),
            _ => {}
        }
    }
}

/// A way to name `dir` from `cwd`.
fn path_to(r: &mut Rng, s: &Path, cwd: &Path, dir: &Path) -> OsString {
    let mut v: Vec<u8> = vec![];
    if r.chance(35) {
        // The shortest way: what the two have in common is left out.
        let (a, b): (Vec<_>, Vec<_>) = (cwd.components().collect(), dir.components().collect());
        let same = a.iter().zip(&b).take_while(|(x, y)| x == y).count();
        let way: PathBuf = a[same..].iter().map(|_| std::path::Component::ParentDir).chain(b[same..].iter().copied()).collect();
        v.extend(way.as_os_str().as_bytes());
        if v.is_empty() {
            v.push(b'.');
        }
    } else if r.chance(50) {
        // Up to the scratch directory, then down.
        let up = cwd.strip_prefix(s).unwrap().components().count();
        if r.chance(20) {
            v.extend(b"./");
        }
        for _ in 0..up {
            v.extend(b"../");
        }
        v.extend(dir.strip_prefix(s).unwrap().as_os_str().as_bytes());
    } else {
        v.extend(dir.as_os_str().as_bytes());
    }
    if r.chance(20) {
        v.push(b'/');
    }
    if r.chance(10) {
        v.extend(b"/.");
    }
    if v.is_empty() {
        v.push(b'.');
    }
    OsString::from_vec(v)
}

pub fn c28(c: &mut Case) -> R {
    let mut r = c.rng();
    let s = Scratch::new();
    let root = s.0.join("w");
    // What each directory holds, as the ids for each extension.
    let mut dirs: Vec<PathBuf> = vec![root.clone()];
    let mut files: BTreeMap<PathBuf, Vec<(String, &str)>> = BTreeMap::new();
    for _ in 0..2 + r.below(3) {
        dirs.push(root.join(r.pick(DIRS)));
    }
    dirs.sort();
    dirs.dedup();
    dirs.iter().for_each(|d| fs::create_dir_all(d).expect("dir"));
    for d in &dirs {
        let mut here = BTreeSet::new();
        for _ in 0..r.below(7) {
            here.insert((r.pick(NAMES).to_string(), if r.chance(60) { EXTS[r.below(4)] } else { *r.pick(EXTS) }));
        }
        for (n, e) in &here {
            let p = d.join(format!("{n}.{e}"));
            if p.is_dir() {
                continue;
            }
            fs::create_dir_all(p.parent().unwrap()).expect("dir");
            if p.parent().unwrap().is_dir() && fs::write(&p, b"x").is_ok() {
                files.entry(d.clone()).or_default().push((n.clone(), e));
            }
        }
    }
    // The ids under a directory: of the directories inside it, too.
    let ids = |dir: &Path, ext: &str| -> BTreeSet<PathBuf> {
        let mut v = BTreeSet::new();
        for (d, fs) in &files {
            let Ok(rel) = d.strip_prefix(dir) else { continue };
            for (n, e) in fs {
                let name = format!("{n}.{e}");
                if let Some(stem) = name.strip_suffix(&format!(".{ext}")) {
                    if !stem.is_empty() && !stem.ends_with('/') {
                        v.insert(rel.join(stem));
                    }
                }
            }
        }
        v
    };
    let program = if r.chance(15) {
        let link = s.0.join(r.pick(&["plot", "doc", "md", "-C"]));
        let _ = std::os::unix::fs::symlink(bin("plotline"), &link);
        link
    } else {
        bin("plotline")
    };
    let mut nontrivial = false;
    for _ in 0..4 {
        let cwd = r.pick(&dirs).clone();
        let given_dir = r.chance(65).then(|| r.pick(&dirs).clone());
        let given_ext = r.chance(60).then(|| *r.pick(EXTS));
        let (dir, ext) = (given_dir.clone().unwrap_or(cwd.clone()), given_ext.unwrap_or("md"));
        let want = ids(&dir, ext);
        let elsewhere: Vec<PathBuf> = dirs.iter().flat_map(|d| EXTS.iter().flat_map(|e| ids(d, e)).collect::<Vec<_>>()).collect();
        // The command, and the options between any two of its words.
        let pick_id = |r: &mut Rng| -> PathBuf {
            if !want.is_empty() && r.chance(60) {
                want.iter().nth(r.below(want.len())).unwrap().clone()
            } else if !elsewhere.is_empty() && r.chance(80) {
                r.pick(&elsewhere).clone()
            } else {
                PathBuf::from("nowhere")
            }
        };
        let word = |p: &Path| p.to_str().is_some_and(|s| !s.starts_with('-') && !["list", "ls", "save", "delete", "help", ""].contains(&s));
        let mut words: Vec<OsString> = vec!["doc".into()];
        let kind = r.weighted(&[5, 4, 1]);
        let mut id = None;
        match kind {
            0 => {
                if r.chance(15) {
                    let p = pick_id(&mut r);
                    if word(&p) {
                        words.push(p.into());
                    }
                }
                words.push(if r.chance(40) { "ls" } else { "list" }.into());
            }
            _ => {
                let p = pick_id(&mut r);
                if !word(&p) {
                    continue;
                }
                words.push(p.clone().into());
                id = Some(p);
                if kind == 1 {
                    words.push("delete".into());
                } else {
                    words.push("save".into());
                    if r.chance(60) {
                        words.push("content".into());
                    }
                }
            }
        }
        let mut slots: Vec<Vec<OsString>> = vec![vec![]; words.len() + 1];
        let together = r.chance(40);
        let at = r.below(slots.len());
        let mut add = |r: &mut Rng, v: Vec<OsString>| {
            let k = if together { at } else { r.below(slots.len()) };
            slots[k].extend(v);
        };
        let ext_first = r.chance(50);
        let mut put = |r: &mut Rng, which: bool| {
            if which {
                if let Some(d) = &given_dir {
                    let p = path_to(r, &s.0, &cwd, d);
                    let v = spelled(r, "-C", "--context", &p);
                    add(r, v);
                }
            } else if let Some(e) = given_ext {
                let v = spelled(r, "-e", "--extension", OsStr::new(e));
                add(r, v);
            }
        };
        put(&mut r, !ext_first);
        put(&mut r, ext_first);
        let mut args: Vec<OsString> = vec![];
        for k in 0..slots.len() {
            args.extend(slots[k].iter().cloned());
            if k < words.len() {
                args.push(words[k].clone());
            }
        }
        let mut cmd = Command::new(&program);
        cmd.args(&args).current_dir(&cwd).stdin(Stdio::null());
        let other = r.pick(&dirs).clone();
        let mut env: Vec<(&str, OsString)> = vec![];
        for k in ["PWD", "OLDPWD", "HOME", "TMPDIR", "XDG_CONFIG_HOME", "CONTEXT", "PLOT_CONTEXT", "PLOTLINE_CONTEXT", "PLOTLINE_DIR"] {
            if r.chance(30) {
                env.push((k, other.clone().into()));
            }
        }
        for k in ["EXTENSION", "PLOT_EXTENSION", "PLOTLINE_EXTENSION"] {
            if r.chance(20) {
                env.push((k, OsString::from(*r.pick(EXTS))));
            }
        }
        for (k, vs) in [("RUST_LOG", &["off", "trace", "plotline=debug"][..]), ("RUST_BACKTRACE", &["0", "0", "0", "0", "1"]), ("LC_ALL", &["C", "de_DE.UTF-8"]), ("COLUMNS", &["1", "20"]), ("NO_COLOR", &["1"]), ("TERM", &["dumb", ""])] {
            if r.chance(20) {
                env.push((k, OsString::from(*r.pick(vs))));
            }
        }
        cmd.env_remove("PWD");
        cmd.envs(env.iter().map(|(k, v)| (k, v)));
        let out = cmd.output().expect("plotline");
        let code = out.status.code();
        let text = String::from_utf8_lossy(&out.stdout).into_owned();
        c.count("binary_runs", 1);
        c.count("base_directories_given", given_dir.is_some() as u64);
        c.count("extensions_given", given_ext.is_some() as u64);
        let inside = slots[1..].iter().any(|v| !v.is_empty());
        c.count("options_inside_the_command", inside as u64);
        nontrivial |= given_dir.is_some() || given_ext.is_some();
        let mut h = 1u64;
        for a in &args {
            for b in a.as_bytes().iter().chain(&[0]) {
                h = mix(h ^ *b as u64);
            }
        }
        c.mixh(h ^ want.len() as u64);
        let bad = |m: String| {
            Err(Violation::new(
                m,
                format!("{args:?} in {cwd:?} with {env:?}\nexit {code:?}\nstdout {text:?}\nstderr {}\nfiles {files:?}", String::from_utf8_lossy(&out.stderr)),
            ))
        };
        match kind {
            0 => {
                let list = |f: &dyn Fn(&PathBuf) -> String| -> String { want.iter().map(|p| f(p) + "\n").collect() };
                if code != Some(0) {
                    return bad(format!("{args:?} exits with {code:?}"));
                }
                if text != list(&|p| format!("{p:?}")) && text != list(&|p| p.display().to_string()) {
                    return bad(format!("{args:?} in {cwd:?} lists {text:?}, the documents are {want:?}"));
                }
                c.count("lists", 1);
                c.count("lists_of_something", !want.is_empty() as u64);
            }
            1 => {
                let there = want.contains(id.as_ref().unwrap());
                c.count(if there { "deletes_of_something" } else { "deletes_of_nothing" }, 1);
                if (code == Some(0)) != there || code.is_none() || code == Some(101) {
                    return bad(format!("{args:?} in {cwd:?} exits with {code:?}, the document is {}", if there { "there" } else { "not there" }));
                }
            }
            _ => {
                c.count("saves", 1);
                if code != Some(0) {
                    return bad(format!("{args:?} in {cwd:?} exits with {code:?}"));
                }
                // Whatever a save writes to disk is not what is examined here.
                if !want.contains(id.as_ref().unwrap()) {
                    break;
                }
            }
        }
        if kind == 1 && code == Some(0) {
            break;
        }
    }
    c.nontrivial = nontrivial;
    Ok(())
}
