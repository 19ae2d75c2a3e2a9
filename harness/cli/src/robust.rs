//! C25: the command-line tool in hostile surroundings. Whatever happens around it, it ends by itself
//! with a status that tells the truth, and what it cannot read does not hide what it can.

use std::ffi::{OsStr, OsString};
use std::fs;
use std::os::unix::ffi::{OsStrExt, OsStringExt};
use std::os::unix::fs::PermissionsExt;
use std::os::unix::process::CommandExt;
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicBool, Ordering};
use std::sync::{Arc, OnceLock};
use std::time::{Duration, Instant};

use vcommon::{mix, Case, Rng, Violation};

use crate::session::bin;
use crate::tree::{base_name, Kind, Scratch, Tree};

type R = Result<(), Violation>;

const NOBODY: u32 = 65534;

/// A copy of the tool that an unprivileged user can run, and whether one can be used at all.
fn tool() -> &'static (PathBuf, bool) {
    static TOOL: OnceLock<(PathBuf, bool)> = OnceLock::new();
    TOOL.get_or_init(|| {
        let tmp = std::env::temp_dir();
        // The run's scratch directories are private to root by default.
        for d in tmp.ancestors().take_while(|d| d.starts_with("/tmp") && d.components().count() > 2) {
            if let Ok(m) = fs::metadata(d) {
                let _ = fs::set_permissions(d, fs::Permissions::from_mode(m.permissions().mode() | 0o711));
            }
        }
        let copy = tmp.join("plotline-copy");
        let _ = fs::copy(bin("plotline"), &copy);
        let _ = fs::set_permissions(&copy, fs::Permissions::from_mode(0o755));
        let ok = Command::new(&copy).arg("--version").current_dir("/").uid(NOBODY).gid(NOBODY).output().is_ok_and(|o| o.status.success());
        (copy, ok)
    })
}

fn arg_word(r: &mut Rng) -> OsString {
    const W: &[&[u8]] = &[
        b"doc", b"doc", b"doc", b"list", b"ls", b"save", b"delete", b"help", b"--help", b"-h", b"--version", b"-V", b"", b" ", b"-", b"--", b"---", b"-x", b"--nope", b"--context", b"-C", b"-e", b"--extension", b"-C=", b"--extension=", b"-e=md",
        b"a", b"notes", b"a/b/../../c", b"..", b".", b"../x", b"a\0b", b"\xff\xfe", b"caf\xc3", b"\xf0\x9f\x98\x80", b"new\nline", b"%s%n%d", b"$(id)", b"{}", b"{0}", b"-1", b"--id=x", b"9999999999999999999999", b"*", b"a b c", b"\t",
        b"--context=", b"--extension=md", b"Doc", b"DOC", b"lists", b"docs",
    ];
    match r.below(25) {
        0 => OsString::from_vec(vec![b'x'; 1 + r.below(20_000)]),
        1 => OsString::from_vec((0..1 + r.below(12)).map(|_| 1 + r.below(255) as u8).collect()),
        _ => OsString::from_vec(r.pick(W).iter().copied().filter(|b| *b != 0).collect()),
    }
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum Out {
    File,
    Full,
    ClosedPipe,
    Closed,
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum Base {
    Tree,
    Missing,
    AFile,
    Unreadable,
    Loop,
    Dangling,
    Empty,
    Fifo,
    Null,
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum What {
    List,
    Save,
    Delete,
    Words,
    Help,
}

/// What ended: exit status (None: a signal), or no end at all.
enum End {
    Code(Option<i32>),
    Hang,
}

pub fn c25(c: &mut Case) -> R {
    let mut r = c.rng();
    let s = Scratch::new();
    let (tool, unprivileged) = tool().clone();
    c.count(if unprivileged { "unprivileged_runs" } else { "privileged_runs" }, 1);
    let wild = r.chance(70);
    let t = Tree::generate(&mut r, wild, true, true);
    let root = s.0.join("up").join(if t.above.is_empty() && r.chance(25) { base_name(&mut r, &t.ext) } else { "base".into() });
    t.write(&root).expect("tree");
    let home = s.0.join("home");
    fs::create_dir_all(&home).expect("home");

    // Disturbances inside the tree.
    let mut locked: Vec<PathBuf> = vec![];
    let mut notes: Vec<String> = vec![];
    let mut blurred = false;
    let dirs: Vec<PathBuf> = t.entries.iter().filter(|e| e.kind == Kind::Dir).map(|e| e.rel.clone()).collect();
    let files: Vec<PathBuf> = t.entries.iter().filter(|e| e.kind.bytes().is_some()).map(|e| e.rel.clone()).collect();
    let mut relock: Vec<PathBuf> = vec![];
    if r.chance(40) && !dirs.is_empty() {
        for _ in 0..1 + r.below(2) {
            let d = r.pick(&dirs).clone();
            let mode = *r.pick(&[0o000, 0o100, 0o400, 0o444]);
            notes.push(format!("directory {d:?} has mode {mode:o}"));
            relock.push(root.join(&d));
            locked.push(d.clone());
            let _ = fs::set_permissions(root.join(&d), fs::Permissions::from_mode(mode));
            c.count("unreadable_directories", 1);
        }
    }
    if r.chance(30) && !files.is_empty() {
        let f = r.pick(&files).clone();
        let _ = fs::set_permissions(root.join(&f), fs::Permissions::from_mode(0o000));
        notes.push(format!("file {f:?} is unreadable"));
        c.count("unreadable_files", 1);
    }
    if r.chance(25) {
        // Ignore files that cannot be used, where there are none that count.
        let d = if dirs.is_empty() || r.chance(50) { PathBuf::new() } else { r.pick(&dirs).clone() };
        let p = root.join(&d).join(".ignore");
        if t.rules.is_empty() && !p.exists() {
            match r.below(6) {
                0 => {
                    let _ = fs::write(&p, b"*\n");
                    let _ = fs::set_permissions(&p, fs::Permissions::from_mode(0o000));
                    // Root reads it all the same.
                    blurred |= !unprivileged;
                }
                1 => {
                    let _ = fs::write(&p, b"[\n{a,\n\\\n[z-a]\n");
                }
                2 => {
                    let _ = fs::write(&p, b"\xff\xfe\x00\x01\n");
                }
                3 => {
                    let _ = fs::create_dir(&p);
                }
                4 => {
                    let _ = std::os::unix::fs::symlink(".ignore", &p);
                }
                _ => {
                    let _ = fs::write(&p, vec![b'#'; 100_000]);
                }
            }
            notes.push(format!("unusable ignore file in {d:?}"));
            c.count("unusable_ignore_files", 1);
        }
    }
    if r.chance(20) {
        let _ = std::os::unix::fs::symlink(".", root.join("loop"));
        let _ = std::os::unix::fs::symlink(&root, root.join(format!("self.{}", t.ext.replace('/', ""))));
        notes.push("links to itself".into());
        c.count("link_loops", 1);
    }
    let vanished = r.chance(12);
    let base = if vanished || r.chance(65) {
        Base::Tree
    } else {
        *r.pick(&[Base::Missing, Base::AFile, Base::Unreadable, Base::Loop, Base::Dangling, Base::Empty, Base::Fifo, Base::Null])
    };
    let context: OsString = match base {
        Base::Tree => root.clone().into(),
        Base::Missing => s.0.join("up/nothing/here").into(),
        Base::AFile => {
            let p = s.0.join("up/plain.md");
            fs::write(&p, b"x").expect("file");
            p.into()
        }
        Base::Unreadable => {
            let p = s.0.join("up/locked");
            fs::create_dir_all(&p).expect("dir");
            fs::write(p.join("in.md"), b"x").expect("file");
            relock.push(p.clone());
            fs::set_permissions(&p, fs::Permissions::from_mode(0)).expect("mode");
            p.into()
        }
        Base::Loop => {
            let p = s.0.join("up/round");
            std::os::unix::fs::symlink("round", &p).expect("link");
            p.into()
        }
        Base::Dangling => {
            let p = s.0.join("up/dangling");
            std::os::unix::fs::symlink("gone", &p).expect("link");
            p.into()
        }
        Base::Empty => OsString::new(),
        Base::Fifo => {
            let p = s.0.join("up/pipe.md");
            let _ = Command::new("mkfifo").arg(&p).status();
            p.into()
        }
        Base::Null => "/dev/null".into(),
    };

    let what = *r.pick(&[What::List, What::List, What::List, What::Save, What::Delete, What::Words, What::Help]);
    let mut opts: Vec<OsString> = vec![r.pick(&["-C", "--context"]).into(), context.clone()];
    opts.push("-e".into());
    let ext = if base == Base::Tree || r.chance(50) { OsString::from(&t.ext) } else { OsString::from_vec(arg_word(&mut r).into_vec().into_iter().take(300).collect()) };
    opts.push(ext.clone());
    let id = || -> OsString { "some/id".into() };
    let mut args: Vec<OsString> = vec![];
    match what {
        What::List => args.extend(["doc".into(), OsString::from(if r.chance(50) { "ls" } else { "list" })]),
        What::Save => args.extend(["doc".into(), if r.chance(70) { id() } else { arg_word(&mut r) }, "save".into(), arg_word(&mut r)]),
        What::Delete => args.extend(["doc".into(), if r.chance(70) { id() } else { arg_word(&mut r) }, "delete".into()]),
        What::Help => args.push(r.pick(&["--help", "help", "--version", "-h"]).into()),
        What::Words => {
            for _ in 0..r.below(7) {
                args.push(arg_word(&mut r));
            }
        }
    }
    let argv: Vec<OsString> = if what == What::Words && r.chance(70) {
        // Nothing but words, in an empty working directory.
        args
    } else if r.chance(50) || args.is_empty() || what == What::Help {
        opts.into_iter().chain(args).collect()
    } else {
        args.into_iter().chain(opts).collect()
    };
    let out = *r.pick(&[Out::File, Out::File, Out::File, Out::File, Out::Full, Out::ClosedPipe, Out::Closed]);

    // Everything belongs to the unprivileged user, who owns nothing else.
    let cwd = s.0.join("cwd");
    fs::create_dir_all(cwd.join("gone")).expect("cwd");
    let _ = fs::set_permissions(&s.0, fs::Permissions::from_mode(0o755));
    if unprivileged {
        chown_all(&s.0);
    }
    let path = |n: &str| s.0.join(n);
    let mut cmd;
    if vanished {
        // The working directory is removed before the tool starts.
        cmd = Command::new("sh");
        cmd.args(["-c", "cd \"$1\" && rmdir \"$1\" && shift && exec \"$@\"", "sh"]).arg(cwd.join("gone")).arg(&tool).args(&argv);
        c.count("vanished_working_directories", 1);
    } else {
        cmd = Command::new(&tool);
        cmd.args(&argv);
    }
    cmd.current_dir(&cwd).env_clear().env("PATH", "/usr/bin:/bin").env("HOME", &home).env("TMPDIR", &home);
    if r.chance(30) {
        cmd.env("LANG", r.pick(&["C", "nonsense", "tr_TR.UTF-8"])).env("RUST_LOG", r.pick(&["trace", "=,=", "plotline=debug"])).env("COLUMNS", r.pick(&["0", "-1", "1", "abc"]));
    }
    cmd.stderr(fs::File::create(path("err")).expect("err"));
    cmd.stdin(Stdio::null());
    match out {
        Out::File => cmd.stdout(fs::File::create(path("out")).expect("out")),
        Out::Full => cmd.stdout(fs::OpenOptions::new().write(true).open("/dev/full").expect("/dev/full")),
        Out::ClosedPipe => {
            let (rd, wr) = std::io::pipe().expect("pipe");
            drop(rd);
            cmd.stdout(wr)
        }
        Out::Closed => cmd.stdout(Stdio::null()),
    };
    if unprivileged {
        cmd.uid(NOBODY).gid(NOBODY);
    }
    // Files come and go while the tool walks.
    let restless = base == Base::Tree && r.chance(12);
    let stop = Arc::new(AtomicBool::new(false));
    let mover = restless.then(|| {
        let (stop, root, files) = (stop.clone(), root.clone(), files.clone());
        std::thread::spawn(move || {
            let mut i = 0u64;
            while !stop.load(Ordering::Relaxed) {
                i += 1;
                let d = root.join(format!("moving{}", i % 7));
                let _ = fs::create_dir(&d);
                let _ = fs::write(d.join("x.md"), b"x");
                if let Some(f) = files.get(i as usize % files.len().max(1)) {
                    let _ = fs::remove_file(root.join(f));
                    let _ = fs::write(root.join(f), b"again");
                }
                if i % 3 == 0 {
                    let _ = fs::remove_dir_all(&d);
                }
            }
        })
    });
    let end = match cmd.spawn() {
        Err(e) => {
            stop.store(true, Ordering::Relaxed);
            mover.map(|m| m.join());
            unlock(&relock);
            // An argument list the system refuses, for instance.
            c.count("not_started", 1);
            let _ = e;
            return Ok(());
        }
        Ok(mut child) => {
            let start = Instant::now();
            loop {
                match child.try_wait().expect("wait") {
                    Some(st) => break End::Code(st.code()),
                    None if start.elapsed() > Duration::from_secs(100) => {
                        let _ = child.kill();
                        let _ = child.wait();
                        break End::Hang;
                    }
                    None => std::thread::sleep(Duration::from_micros(if start.elapsed().as_millis() < 30 { 300 } else { 5000 })),
                }
            }
        }
    };
    stop.store(true, Ordering::Relaxed);
    mover.map(|m| m.join());
    unlock(&relock);
    let err = String::from_utf8_lossy(&fs::read(path("err")).unwrap_or_default()).into_owned();
    let printed = fs::read(path("out")).unwrap_or_default();

    c.count("runs", 1);
    c.count(
        match what {
            What::List => "lists",
            What::Save => "saves",
            What::Delete => "deletes",
            What::Words => "word_lines",
            What::Help => "helps",
        },
        1,
    );
    c.count("lost_outputs", (out == Out::Full || out == Out::ClosedPipe) as u64);
    c.count("odd_bases", (base != Base::Tree) as u64);
    c.count("restless_trees", restless as u64);
    c.nontrivial = true;
    let mut h = 0u64;
    for a in &argv {
        for b in a.as_bytes() {
            h = mix(h ^ *b as u64);
        }
    }
    c.mixh(h);
    c.mixh(mix(out as u64 * 64 + base as u64));
    for e in &t.entries {
        for b in e.rel.as_os_str().as_bytes() {
            h = mix(h ^ *b as u64);
        }
    }
    c.mixh(h);
    let shown: Vec<String> = argv.iter().map(|a| show(a)).collect();
    let about = format!(
        "{shown:?}\nbase {base:?}, standard output {out:?}{}{}\n{}\nstderr {}\n{}",
        if vanished { ", working directory removed" } else { "" },
        if restless { ", files come and go" } else { "" },
        notes.join("\n"),
        err.chars().take(1500).collect::<String>(),
        t.show()
    );
    let bad = |m: String| Err(Violation::new(m, about.clone()));
    let code = match end {
        End::Hang => return bad(format!("{shown:?} does not end (base {base:?})")),
        End::Code(None) => return bad(format!("{shown:?} is ended by a signal (base {base:?}, output {out:?})")),
        End::Code(Some(c)) => c,
    };
    if err.contains("panicked at") || code == 101 {
        let line = err.lines().find(|l| l.contains("panicked at")).unwrap_or("").to_string();
        return bad(format!("{shown:?} panics (base {base:?}, output {out:?}{}): {line}", if vanished { ", working directory removed" } else { "" }));
    }
    if code != 0 && err.trim().is_empty() {
        return bad(format!("{shown:?} fails with status {code} and says nothing"));
    }
    c.count(if code == 0 { "successes" } else { "refusals" }, 1);

    // What can be read is listed.
    if what == What::List && base == Base::Tree && !restless && !blurred {
        if locked.iter().any(|d| d.as_os_str().is_empty()) {
            return Ok(());
        }
        let hidden = |rel: &Path| unprivileged && locked.iter().any(|d| rel.starts_with(d) && rel != d);
        // Rules in places that cannot be read do not apply; leave those trees out.
        if unprivileged && !locked.is_empty() && t.rules.iter().any(|x| locked.iter().any(|d| x.0.starts_with(d))) {
            return Ok(());
        }
        let must: Vec<PathBuf> = t.documents().into_iter().filter(|d| !hidden(&d.0)).map(|d| d.0).collect();
        if must.is_empty() {
            return Ok(());
        }
        match out {
            Out::File => {
                if code != 0 {
                    return bad(format!("listing fails with status {code} although documents can be read"));
                }
                let text = String::from_utf8_lossy(&printed);
                let lines: Vec<&str> = text.lines().collect();
                for m in &must {
                    let quoted = format!("{m:?}");
                    c.count("documents_found", 1);
                    if !lines.contains(&quoted.as_str()) && !text.contains(&m.display().to_string()) {
                        return bad(format!("document {m:?} can be read but is not listed"));
                    }
                }
            }
            Out::Full | Out::ClosedPipe => {
                c.count("listings_lost", 1);
                if code == 0 {
                    return bad(format!("listing reports success although none of it could be written ({out:?})"));
                }
            }
            Out::Closed => {}
        }
    }
    Ok(())
}

fn show(a: &OsStr) -> String {
    let s: String = a.to_string_lossy().chars().take(80).collect();
    s
}

fn chown_all(p: &Path) {
    let _ = std::os::unix::fs::lchown(p, Some(NOBODY), Some(NOBODY));
    if fs::symlink_metadata(p).is_ok_and(|m| m.is_dir()) {
        for e in fs::read_dir(p).into_iter().flatten().flatten() {
            chown_all(&e.path());
        }
    }
}

fn unlock(ds: &[PathBuf]) {
    for d in ds {
        let _ = fs::set_permissions(d, fs::Permissions::from_mode(0o755));
    }
}
