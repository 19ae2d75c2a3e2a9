//! C15: sessions of document commands. C20: what commands leave on disk.

use std::collections::BTreeMap;
use std::fs;
use std::io::Write;
use std::os::unix::ffi::{OsStrExt, OsStringExt};
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};

use vcommon::{mix, Case, Rng, Violation};

use crate::tree::{base_name, Scratch, Tree};

type R = Result<(), Violation>;

pub fn bin(name: &str) -> PathBuf {
    std::env::current_exe().expect("exe").parent().unwrap().join(name)
}
fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{x:02x}")).collect()
}
fn unhex(s: &str) -> Vec<u8> {
    (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect()
}

#[derive(Clone, Debug)]
enum Cmd {
    Save(Option<String>, Option<String>),
    Delete(Option<String>),
    List(bool, Option<String>),
    /// Not a command.
    Junk(Vec<String>),
}

fn ids() -> &'static [&'static str] {
    &["a", "b", "notes", "a.b", "a.b.c", "dir/a", "dir/b", "dir.x/y", "sp ace", "é", "A", "dir", "a/b/c/d", "veto1", "dir/veto", "10", "9", "q\"uote", "new\nline", "x.md", "dir/../a", "dir//b", "./a", "a/", "~", "~/a", "@a", "$HOME", "null", "*", "#a", "a:b", "%41"]
}

fn odd_content(r: &mut Rng) -> String {
    const C: &[&str] = &[
        "line one\nline two é", "a\r\nb", "\r\n", "trailing \n", "trailing   ", "  leading", "\n", "\n\nx\n\n", "\t", " ", "\u{feff}x", "x\u{feff}", "delete", "list", "save", "help", "a\\nb", "$HOME `id` $(id)", "*", "~", "%s%n", "\"quoted\"",
        "'single'", "e\u{301}", "\u{e9}", "\u{202e}rtl", "\u{1f600}", "a,b;c", "=", "key=value", "@file", "#x", "UPPER lower", "\u{1}\u{7f}\u{1b}[0m", "nul-free\u{85}\u{2028}", "\r", "a\rb", "&amp;", "<b>", "../x", "/etc/passwd",
        "-", "@-", "@/etc/hostname", "file:///etc/hostname", "/dev/stdin", "null", "none", "nil", "{}", "[]", "{}\n", "0", "1", "true", "false", "undefined", "EOF", ".", "..", "/", "\\", "%", "$(cat)", "`ls`", "${HOME}", "<<EOF", "|cat", "> x", ":", ";", "!", "?",
    ];
    match r.below(12) {
        0 => {
            if r.chance(12) {
                // As long as an argument can be, or about a power of two.
                let n: usize = *r.pick(&[4096, 8192, 16384, 32768, 65535, 65536, 65537, 100_000, 131_000]);
                return "0123456789abcdef".repeat(n / 16 + 1)[..n - r.below(2)].to_string();
            }
            let most = if r.chance(5) { 3000 } else { 200 };
            "long ".repeat(1 + r.below(most))
        }
        1 => format!("{}{}", r.pick(C), r.pick(C)).trim_start_matches('-').to_string(),
        _ => r.pick(C).to_string(),
    }
}

fn gen_cmd(r: &mut Rng, present: &[PathBuf]) -> Cmd {
    let id = |r: &mut Rng| -> String {
        if r.chance(50) && !present.is_empty() {
            if let Some(s) = r.pick(present).to_str() {
                if !s.starts_with('-') && !["save", "list", "ls", "delete", "help", ""].contains(&s) {
                    return s.to_string();
                }
            }
        }
        if r.chance(2) {
            // Very long ones.
            return match r.below(4) {
                0 => "x".repeat(*r.pick(&[255, 256, 600, 5000])),
                1 => "segment/".repeat(*r.pick(&[40, 64, 200, 700])) + "end",
                2 => "é".repeat(*r.pick(&[128, 300, 2100])),
                _ => format!("{}/{}", "d".repeat(255), "f".repeat(250 + r.below(3))),
            };
        }
        r.pick(ids()).to_string()
    };
    match r.below(20) {
        0..=7 => {
            let content = match r.below(7) {
                0 => None,
                1 => Some(String::new()),
                2 | 3 => Some(odd_content(r)),
                _ => Some(format!("content {}", r.below(1000))),
            };
            Cmd::Save(Some(id(r)), content)
        }
        8..=12 => Cmd::Delete(Some(id(r))),
        13..=16 => {
            let alias = r.chance(40);
            let i = r.chance(20).then(|| id(r));
            Cmd::List(alias, i)
        }
        17 => Cmd::Save(None, r.chance(50).then(|| "orphan".into())),
        18 => Cmd::Delete(None),
        _ => Cmd::Junk(match r.below(4) {
            0 => vec!["doc".into()],
            1 => vec!["doc".into(), "x".into(), "frobnicate".into()],
            2 => vec!["doc".into(), "x".into(), "save".into(), "one".into(), "two".into()],
            _ => vec!["doc".into(), "x".into(), "delete".into(), "extra".into()],
        }),
    }
}

fn argv(c: &Cmd) -> Vec<String> {
    let mut v = vec!["doc".to_string()];
    match c {
        Cmd::Save(id, content) => {
            v.extend(id.clone());
            v.push("save".into());
            v.extend(content.clone());
        }
        Cmd::Delete(id) => {
            v.extend(id.clone());
            v.push("delete".into());
        }
        Cmd::List(alias, id) => {
            v.extend(id.clone());
            v.push(if *alias { "ls" } else { "list" }.into());
        }
        Cmd::Junk(a) => return a.clone(),
    }
    v
}

/// id -> (content, spellings it was given)
type Model = BTreeMap<PathBuf, (Vec<u8>, Vec<PathBuf>)>;

#[derive(Debug, PartialEq)]
enum Want {
    Ok,
    Noop,
    Fail,
}

/// What the command must do, applied to the model.
fn apply(m: &mut Model, cmd: &Cmd, veto: bool) -> Want {
    let vetoed = |id: &str| veto && id.contains("veto");
    match cmd {
        Cmd::Save(Some(id), content) => {
            if vetoed(id) {
                return Want::Fail;
            }
            let key = PathBuf::from(id);
            let e = m.entry(key.clone()).or_insert((vec![], vec![]));
            e.0 = content.clone().unwrap_or_default().into_bytes();
            e.1.push(key);
            Want::Ok
        }
        Cmd::Delete(Some(id)) => {
            let key = PathBuf::from(id);
            let Some(e) = m.get(&key) else { return Want::Noop };
            // The trigger sees the stored spelling.
            if veto && e.1.iter().any(|s| s.to_string_lossy().contains("veto")) {
                return Want::Fail;
            }
            m.remove(&key);
            Want::Ok
        }
        Cmd::List(..) => Want::Ok,
        _ => Want::Fail,
    }
}

fn check_list(out: &[u8], m: &Model) -> Result<(), String> {
    let text = String::from_utf8_lossy(out);
    // A raw spelling may itself contain a line break, so compare the text as a whole first.
    let quoted: Vec<Vec<String>> = m.values().map(|v| v.1.iter().map(|s| format!("{s:?}")).collect()).collect();
    let lines: Vec<&str> = text.lines().collect();
    if lines.len() == quoted.len() && lines.iter().zip(&quoted).all(|(l, q)| q.iter().any(|x| x == l)) && (out.is_empty() || out.ends_with(b"\n")) {
        return Ok(());
    }
    let plain: Vec<String> = m.values().map(|v| v.1.last().unwrap().display().to_string()).collect();
    let mut want = plain.join("\n");
    if !plain.is_empty() {
        want.push('\n');
    }
    if text == want {
        return Ok(());
    }
    Err(format!("the list prints {text:?}, present are {:?}", m.keys().collect::<Vec<_>>()))
}

fn initial(t: &Tree) -> Model {
    t.documents().into_iter().map(|(id, b)| (id.clone(), (b, vec![id]))).collect()
}

fn hashv(c: &mut Case, b: &[u8]) {
    let mut h = 1u64;
    for x in b {
        h = mix(h ^ *x as u64);
    }
    c.mixh(h);
}

fn in_process(c: &mut Case) -> R {
    let mut r = c.rng();
    let s = Scratch::new();
    let wild = r.chance(30);
    let t = Tree::generate(&mut r, wild, false, false);
    let root = s.0.join("up").join(if t.above.is_empty() && r.chance(25) { base_name(&mut r, &t.ext) } else { "base".into() });
    t.write(&root).expect("tree");
    let veto = r.chance(30);
    let mut m = initial(&t);
    let marker = format!("--marker-{:x}--", r.u64());
    let n = 3 + r.below(15);
    let mut shadow = m.clone();
    let cmds: Vec<Cmd> = (0..n)
        .map(|_| {
            let present: Vec<PathBuf> = shadow.keys().cloned().collect();
            let cmd = gen_cmd(&mut r, &present);
            apply(&mut shadow, &cmd, veto);
            cmd
        })
        .collect();
    let mut child = Command::new(bin("session"))
        .arg(&root)
        .arg(&t.ext)
        .arg(&marker)
        .arg(if veto { "veto" } else { "no" })
        .stdin(Stdio::piped())
        .stdout(Stdio::piped())
        .stderr(Stdio::piped())
        .spawn()
        .expect("session");
    let mut si = child.stdin.take().unwrap();
    let lines: Vec<String> = cmds.iter().map(|cmd| std::iter::once("plot".to_string()).chain(argv(cmd)).map(|x| hex(x.as_bytes())).collect::<Vec<_>>().join(" ") + "\n").collect();
    // The child reports while it is being told, and neither side may wait for the other.
    let writer = std::thread::spawn(move || lines.iter().try_for_each(|l| si.write_all(l.as_bytes())));
    let out = child.wait_with_output().expect("session output");
    let _ = writer.join();
    let bad = |m: String, upto: usize| Err(Violation::new(m, format!("{}veto={veto}\n{}", t.show(), cmds[..=upto.min(cmds.len() - 1)].iter().map(|c| format!("{:?}", argv(c))).collect::<Vec<_>>().join("\n"))));
    // Split standard output at the markers.
    let mark = format!("{marker}\n").into_bytes();
    let mut chunks: Vec<Vec<u8>> = vec![];
    let mut rest: &[u8] = &out.stdout;
    while let Some(p) = rest.windows(mark.len()).position(|w| w == mark) {
        chunks.push(rest[..p].to_vec());
        rest = &rest[p + mark.len()..];
    }
    let err = String::from_utf8_lossy(&out.stderr).into_owned();
    let reports: Vec<&str> = err.lines().filter_map(|l| l.strip_prefix(&marker)).collect();
    if chunks.len() != cmds.len() || reports.len() != cmds.len() {
        return bad(format!("the session ended after {} of {} commands: {}", reports.len(), cmds.len(), err.lines().last().unwrap_or("")), reports.len());
    }
    for (i, cmd) in cmds.iter().enumerate() {
        let want = apply(&mut m, cmd, veto);
        let (res, graph) = reports[i].trim_start().split_once('|').unwrap();
        c.count("commands", 1);
        let ok = res == "ok";
        let text = res.split_once(' ').map(|x| String::from_utf8_lossy(&unhex(x.1)).into_owned()).unwrap_or_default();
        match (cmd, ok) {
            (Cmd::Save(Some(_), _), true) => c.count("saves_ok", 1),
            (Cmd::Delete(Some(_)), true) => c.count("deletes_ok", 1),
            (Cmd::Delete(Some(_)), false) => c.count("deletes_refused", 1),
            (Cmd::List(..), _) => c.count("lists", 1),
            (Cmd::Save(None, _) | Cmd::Delete(None), _) => c.count("without_id", 1),
            _ => {}
        }
        hashv(c, format!("{cmd:?}{ok}").as_bytes());
        if res == "panic" {
            return bad(format!("command {:?} panicked", argv(cmd)), i);
        }
        if ok != (want == Want::Ok) {
            return bad(format!("command {:?} gave {res:?} {text:?}, expected {want:?}", argv(cmd)), i);
        }
        if want == Want::Noop && !text.contains("nothing to apply") {
            return bad(format!("deleting an absent id failed with {text:?}"), i);
        }
        // Standard output.
        match cmd {
            Cmd::List(..) => {
                if let Err(e) = check_list(&chunks[i], &m) {
                    return bad(e, i);
                }
            }
            _ if !chunks[i].is_empty() => return bad(format!("command {:?} printed {:?}", argv(cmd), String::from_utf8_lossy(&chunks[i])), i),
            _ => {}
        }
        // The whole graph.
        let mut got: BTreeMap<PathBuf, Option<Vec<u8>>> = BTreeMap::new();
        for g in graph.split(',').filter(|g| !g.is_empty()) {
            let f: Vec<&str> = g.split(':').collect();
            let id = PathBuf::from(std::ffi::OsString::from_vec(unhex(f[0])));
            let inner = (f[2] != "-").then(|| PathBuf::from(std::ffi::OsString::from_vec(unhex(f[2]))));
            if inner.is_some_and(|x| x != id) {
                return bad(format!("document {id:?} holds a document with another id"), i);
            }
            got.insert(id, (f[1] != "-").then(|| unhex(f[1])));
        }
        let want: BTreeMap<PathBuf, Option<Vec<u8>>> = m.iter().map(|(k, v)| (k.clone(), Some(v.0.clone()))).collect();
        if got != want {
            let d: Vec<_> = got.iter().filter(|x| want.get(x.0) != Some(x.1)).take(3).collect();
            let e: Vec<_> = want.iter().filter(|x| got.get(x.0) != Some(x.1)).take(3).collect();
            return bad(format!("after {:?} present are {d:?} not expected, and missing {e:?}", argv(cmd)), i);
        }
    }
    c.count("sessions", 1);
    Ok(())
}

/// System calls that change the file system (opens are told apart by their flags).
const MUTATORS: &[&str] = &[
    "open", "openat", "openat2", "creat", "unlink", "unlinkat", "rename", "renameat", "renameat2", "mkdir", "mkdirat", "rmdir", "link", "linkat", "symlink", "symlinkat", "truncate", "ftruncate", "chmod", "fchmod", "fchmodat", "chown", "fchown",
    "fchownat", "lchown", "utimensat", "mknod", "mknodat", "setxattr", "lsetxattr", "fsetxattr", "removexattr", "fallocate",
];

/// The successful calls of a trace that changed the file system: (call, path, whole line).
fn changes(trace: &str) -> (usize, Vec<(String, String, String)>) {
    let mut seen = 0;
    let mut v = vec![];
    for line in trace.lines() {
        let text = line.trim_start_matches(|c: char| c.is_ascii_digit() || c == ' ');
        let Some((call, rest)) = text.split_once('(') else { continue };
        if !MUTATORS.contains(&call) {
            continue;
        }
        seen += 1;
        if rest.rsplit_once(" = ").is_none_or(|x| x.1.starts_with('-')) {
            continue;
        }
        let opens = call.starts_with("open");
        if opens && !["O_WRONLY", "O_RDWR", "O_CREAT", "O_TRUNC", "O_APPEND", "O_TMPFILE"].iter().any(|f| rest.contains(f)) {
            continue;
        }
        let path = rest.split('"').nth(1).unwrap_or("").to_string();
        if !path.starts_with("/dev/") {
            v.push((call.to_string(), path, line.to_string()));
        }
    }
    (seen, v)
}

struct Ran {
    code: Option<i32>,
    out: Vec<u8>,
    err: String,
}

/// One command of the real binary; the base directory and extension given one of several ways.
fn real(r: &mut Rng, s: &Scratch, root: &Path, ext: &str, args: &[String], trace: Option<&Path>) -> Ran {
    let mut cmd = match trace {
        None => Command::new(bin("plotline")),
        Some(out) => {
            let mut c = Command::new("strace");
            c.args(["-f", "-qq", "-s", "4096", "-e", &format!("trace={}", MUTATORS.join(",")), "-o"]).arg(out).arg(bin("plotline"));
            c
        }
    };
    let home = s.0.join("home");
    let _ = fs::create_dir_all(&home);
    cmd.env("TMPDIR", &home);
    cmd.env("HOME", &home).env_remove("XDG_CONFIG_HOME").env_remove("RUST_LOG").stdin(Stdio::null());
    let mut v: Vec<std::ffi::OsString> = vec![];
    let after = r.chance(40);
    let mut opts: Vec<std::ffi::OsString> = vec![];
    match r.below(4) {
        0 if root.is_dir() => {
            cmd.current_dir(root);
        }
        1 => {
            cmd.current_dir(&s.0);
            opts.push("-C".into());
            opts.push(root.strip_prefix(&s.0).unwrap().as_os_str().to_owned());
        }
        2 => {
            cmd.current_dir(&home);
            opts.push("--context".into());
            opts.push(root.as_os_str().to_owned());
        }
        _ => {
            cmd.current_dir(&home);
            opts.push("-C".into());
            opts.push(root.as_os_str().to_owned());
        }
    }
    if ext != "md" || r.chance(30) {
        let mut o = std::ffi::OsString::from("--extension=");
        o.push(ext);
        opts.push(o);
    }
    if after && !args.is_empty() {
        v.push(args[0].clone().into());
        v.extend(opts);
        v.extend(args[1..].iter().map(Into::into));
    } else {
        v.extend(opts);
        v.extend(args.iter().map(Into::into));
    }
    let o = cmd.args(v).output().expect("plotline");
    Ran { code: o.status.code(), out: o.stdout, err: String::from_utf8_lossy(&o.stderr).into_owned() }
}

fn real_binary(c: &mut Case) -> R {
    let mut r = c.rng();
    let s = Scratch::new();
    let wild = r.chance(30);
    let t = Tree::generate(&mut r, wild, false, false);
    let root = s.0.join("up").join(if t.above.is_empty() && r.chance(25) { base_name(&mut r, &t.ext) } else { "base".into() });
    t.write(&root).expect("tree");
    for _ in 0..3 {
        let mut m = initial(&t);
        let present: Vec<PathBuf> = m.keys().cloned().collect();
        let cmd = gen_cmd(&mut r, &present);
        let want = apply(&mut m, &cmd, false);
        let args = argv(&cmd);
        let ran = real(&mut r, &s, &root, &t.ext, &args, None);
        c.count("binary_runs", 1);
        c.count("commands", 1);
        hashv(c, format!("{cmd:?}{:?}", ran.code).as_bytes());
        let bad = |m: String| Err(Violation::new(m, format!("{args:?}\nexit {:?}\nstdout {:?}\nstderr {}\n{}", ran.code, String::from_utf8_lossy(&ran.out), ran.err, t.show())));
        if ran.code.is_none() || ran.code == Some(101) {
            return bad(format!("{args:?} crashed (exit {:?})", ran.code));
        }
        if (ran.code == Some(0)) != (want == Want::Ok) {
            return bad(format!("{args:?} exits with {:?}, expected {want:?}", ran.code));
        }
        if want == Want::Noop && !ran.err.contains("nothing to apply") {
            return bad(format!("deleting an absent id says {:?}", ran.err));
        }
        match cmd {
            Cmd::List(..) => {
                if let Err(e) = check_list(&ran.out, &m) {
                    return bad(e);
                }
            }
            _ if !ran.out.is_empty() => return bad(format!("{args:?} printed {:?}", String::from_utf8_lossy(&ran.out))),
            _ => {}
        }
    }
    Ok(())
}

pub fn c15(c: &mut Case) -> R {
    c.nontrivial = true;
    if c.idx % 3 == 2 {
        real_binary(c)
    } else {
        in_process(c)
    }
}

// ------------------------------------------------------------------ C20

type Snap = BTreeMap<PathBuf, String>;

fn snap(dir: &Path, out: &mut Snap, root: &Path) {
    let Ok(rd) = fs::read_dir(dir) else { return };
    for e in rd.flatten() {
        let p = e.path();
        let rel = p.strip_prefix(root).unwrap().to_owned();
        let Ok(md) = fs::symlink_metadata(&p) else { continue };
        use std::os::unix::fs::MetadataExt;
        let mode = md.mode();
        let when = format!("{}.{}", md.mtime(), md.mtime_nsec());
        if md.is_dir() {
            out.insert(rel, format!("dir {mode:o}/{}/{} {when}", md.uid(), md.gid()));
            snap(&p, out, root);
        } else if md.is_symlink() {
            out.insert(rel, format!("link {:?}", fs::read_link(&p).ok()));
        } else {
            out.insert(rel, format!("file {mode:o}/{}/{} {when} inode {} {}", md.uid(), md.gid(), md.ino(), hex(&fs::read(&p).unwrap_or_default())));
        }
    }
}

fn known(sig: &str) -> bool {
    static KNOWN: std::sync::OnceLock<Vec<String>> = std::sync::OnceLock::new();
    KNOWN
        .get_or_init(|| {
            let text = std::env::var("VERIF_KNOWN").ok().and_then(|p| fs::read_to_string(p).ok()).unwrap_or_default();
            text.lines()
                .filter_map(|l| l.strip_prefix("known: property=C20 signature="))
                .map(|l| l.split_whitespace().next().unwrap_or("").to_string())
                .collect()
        })
        .iter()
        .any(|k| k == sig)
}

/// Entries with names close to that of the document, where a command might mistake them for it.
fn bait(c: &mut Case, r: &mut Rng, s: &Scratch, root: &Path, ext: &str, id: &str) {
    let home = s.0.join("home");
    for dir in [root, home.as_path(), s.0.as_path()] {
        if !dir.is_dir() || r.chance(30) {
            continue;
        }
        let base = dir.join(id);
        let Some(parent) = base.parent() else { continue };
        if r.chance(60) && fs::create_dir_all(parent).is_err() || !parent.is_dir() {
            continue;
        }
        let with = |x: &str| {
            let mut p = base.clone().into_os_string();
            p.push(x);
            PathBuf::from(p)
        };
        let beside = |x: &str| parent.join(x);
        let dotted = |x: &str| {
            let mut n = std::ffi::OsString::from(".");
            n.push(base.file_name().unwrap_or_default());
            n.push(x);
            parent.join(n)
        };
        for _ in 0..r.below(4) {
            let (p, dir) = match r.below(16) {
                0..=3 => (base.clone(), true),
                4 => (base.clone(), false),
                5 => (with(&format!(".{ext}~")), false),
                6 => (with(&format!(".{ext}.bak")), false),
                7 => (with(&format!(".{ext}.tmp")), false),
                8 => (with(".tmp"), false),
                9 => (dotted(&format!(".{ext}.swp")), false),
                10 => (with(".lock"), false),
                11 => (beside(".plotline"), r.chance(50)),
                12 => (beside(&format!(".{ext}")), false),
                // The same document, but not below the base directory.
                13 if dir != root => (with(&format!(".{ext}")), false),
                14 if dir != root => (with(".md"), false),
                15 => (base.join("inner"), true),
                _ => (with(".md.md"), false),
            };
            if p.symlink_metadata().is_ok() {
                continue;
            }
            let made = if dir { fs::create_dir_all(&p) } else { fs::write(&p, b"bystander") };
            c.count("bystanders", made.is_ok() as u64);
        }
    }
}

/// Unusual permissions, owners and times of files and directories (commands run as root here, so
/// nothing of this keeps them from reading).
fn odd_metadata(c: &mut Case, r: &mut Rng, top: &Path) {
    use std::os::unix::fs::PermissionsExt;
    let mut all = vec![];
    let mut todo = vec![top.to_owned()];
    while let Some(d) = todo.pop() {
        for e in fs::read_dir(&d).into_iter().flatten().flatten() {
            let Ok(ty) = e.file_type() else { continue };
            if ty.is_dir() {
                todo.push(e.path());
            }
            if !ty.is_symlink() {
                all.push((e.path(), ty.is_dir()));
            }
        }
    }
    // Deepest first; the order does not matter to root.
    for (p, dir) in all {
        if r.chance(25) {
            let mode = *r.pick(if dir { &[0o700, 0o755, 0o555, 0o1777, 0o2755, 0o500, 0o770][..] } else { &[0o444, 0o400, 0o600, 0o755, 0o640, 0o000, 0o666, 0o4755, 0o200][..] });
            c.count("odd_modes", fs::set_permissions(&p, fs::Permissions::from_mode(mode)).is_ok() as u64);
        }
        if r.chance(8) {
            c.count("odd_owners", std::os::unix::fs::chown(&p, Some(65534), Some(65534)).is_ok() as u64);
        }
        if r.chance(15) {
            let t = std::time::UNIX_EPOCH + std::time::Duration::from_secs(*r.pick(&[0, 1, 86_400, 2_000_000_000, 5_000_000_000]));
            let times = fs::FileTimes::new().set_accessed(t).set_modified(t);
            c.count("odd_times", fs::File::open(&p).and_then(|f| f.set_times(times)).is_ok() as u64);
        }
    }
}

pub fn c20(c: &mut Case) -> R {
    let mut r = c.rng();
    let s = Scratch::new();
    let t = Tree::generate(&mut r, false, true, false);
    let t = Tree { entries: t.entries.into_iter().filter(|e| e.kind != crate::tree::Kind::Fifo).collect(), ..t };
    let root = s.0.join("up").join(if t.above.is_empty() && r.chance(25) { base_name(&mut r, &t.ext) } else { "base".into() });
    t.write(&root).expect("tree");
    fs::create_dir_all(s.0.join("home")).expect("home");
    fs::write(s.0.join("up/sibling.md"), b"outside the base").expect("sibling");
    // Sometimes the base directory does not exist.
    let missing = r.chance(8);
    let root = if missing { s.0.join("up/missing/base") } else { root };
    let m0 = if missing { Model::new() } else { initial(&t) };
    let present: Vec<PathBuf> = m0.keys().cloned().collect();
    let cmd = match gen_cmd(&mut r, &present) {
        // Stay with ids that name one place below the base directory.
        Cmd::Save(Some(id), x) if id.contains("..") || id.contains("//") || id.starts_with('.') || id.ends_with('/') => {
            Cmd::Save(Some("plain".into()), x)
        }
        Cmd::Delete(Some(id)) if id.contains("..") || id.contains("//") || id.starts_with('.') || id.ends_with('/') => Cmd::Delete(Some("a".into())),
        // A bare "save" takes no directory in the way of the document's own.
        x => x,
    };
    if let Cmd::Save(Some(id), _) | Cmd::Delete(Some(id)) | Cmd::List(_, Some(id)) = &cmd {
        bait(c, &mut r, &s, &root, &t.ext, id);
    }
    if !missing && r.chance(8) {
        // Many more documents.
        let at = root.join("zz-many");
        let _ = fs::create_dir_all(&at);
        for i in 0..*r.pick(&[20, 40, 70, 130, 260]) {
            let _ = fs::write(at.join(format!("{i}.{}", t.ext)), b"one of many");
        }
        c.count("large_directories", 1);
    }
    if r.chance(60) {
        odd_metadata(c, &mut r, &s.0);
    }
    let (mut before, mut after) = (Snap::new(), Snap::new());
    snap(&s.0, &mut before, &s.0);
    let args = argv(&cmd);
    let traced = std::env::temp_dir().join(format!("trace-{}-{}", std::process::id(), s.0.file_name().unwrap().to_string_lossy()));
    let trace = r.chance(15).then_some(traced.as_path());
    let ran = real(&mut r, &s, &root, &t.ext, &args, trace);
    snap(&s.0, &mut after, &s.0);
    c.count("binary_runs", 1);
    c.count("snapshots", 2);
    c.count(match cmd {
        Cmd::Save(..) => "saves",
        Cmd::Delete(_) => "deletes",
        Cmd::List(..) => "lists",
        Cmd::Junk(_) => "junk",
    }, 1);
    c.nontrivial = before.len() > 5;
    if c.idx < 8 {
        c.sample = Some(format!("{args:?} exit {:?}, {} entries before, {} after\n{}", ran.code, before.len(), after.len(), t.show()));
    }
    hashv(c, format!("{args:?}{:?}", before.keys().collect::<Vec<_>>()).as_bytes());
    let mut diff: Vec<(PathBuf, Option<String>, Option<String>)> = vec![];
    for (p, v) in &before {
        if after.get(p) != Some(v) {
            diff.push((p.clone(), Some(v.clone()), after.get(p).cloned()));
        }
    }
    for (p, v) in &after {
        if !before.contains_key(p) {
            diff.push((p.clone(), None, Some(v.clone())));
        }
    }
    let show = |d: &[(PathBuf, Option<String>, Option<String>)]| d.iter().take(6).map(|x| format!("{:?}: {:?} -> {:?}", x.0, x.1, x.2)).collect::<Vec<_>>().join("\n");
    let bad = |m: String, d: &[(PathBuf, Option<String>, Option<String>)]| Err(Violation::new(m, format!("{args:?} exit {:?}\n{}\n{}", ran.code, show(d), t.show())));
    let file = |id: &str| {
        let mut p = root.strip_prefix(&s.0).unwrap().join(id).into_os_string();
        p.push(format!(".{}", t.ext));
        PathBuf::from(p)
    };
    let (own, want): (Option<PathBuf>, Option<Option<Vec<u8>>>) = match (&cmd, ran.code) {
        (Cmd::Save(Some(id), x), Some(0)) => (Some(file(id)), Some(Some(x.clone().unwrap_or_default().into_bytes()))),
        (Cmd::Delete(Some(id)), Some(0)) => (Some(file(id)), Some(None)),
        _ => (None, None),
    };
    // Anything else on disk: untouched. (A save may create the directories its file needs.)
    let own_changed = diff.iter().any(|d| Some(&d.0) == own.as_ref());
    let other: Vec<_> = diff
        .iter()
        .filter(|d| Some(&d.0) != own.as_ref())
        // Its directories may be touched by what happens to the file, if anything does.
        .filter(|d| {
            if !own_changed {
                return true;
            }
            let dir = |x: &Option<String>| x.as_ref().and_then(|x| x.strip_prefix("dir ")?.split(' ').next().map(str::to_owned));
            !(own.as_ref().is_some_and(|o| o.starts_with(&d.0)) && dir(&d.1).is_some() && dir(&d.1) == dir(&d.2))
        })
        .filter(|d| !(matches!(cmd, Cmd::Save(..)) && d.1.is_none() && d.2.as_ref().is_some_and(|x| x.starts_with("dir")) && own.as_ref().is_some_and(|o| o.starts_with(&d.0))))
        .cloned()
        .collect();
    if !other.is_empty() {
        return bad(format!("{args:?} changed {} other entries on disk, first {:?}", other.len(), other[0].0), &other);
    }
    if trace.is_some() {
        let text = fs::read_to_string(&traced).unwrap_or_default();
        let _ = fs::remove_file(&traced);
        let (seen, list) = changes(&text);
        if seen == 0 {
            // Every program opens files: there is no trace.
            c.count("traces_unavailable", 1);
        } else {
            c.count("system_call_traces", 1);
            c.count("traced_calls", seen as u64);
            let quiet = own.is_none();
            // Below the scratch directory a command with its own document is judged by the snapshots.
            if let Some(x) = list.iter().find(|x| quiet || Path::new(&x.1).is_absolute() && !Path::new(&x.1).starts_with(&s.0)) {
                return bad(format!("{args:?} changes the file system: {} {:?}", x.0, x.1), &[]);
            }
        }
    }
    if missing {
        c.count("missing_base_directories", 1);
    }
    if let (Some(own), Some(want)) = (own, want) {
        let now = fs::read(s.0.join(&own)).ok();
        if now != want {
            let sig = match (&cmd, before.contains_key(&own)) {
                (Cmd::Save(..), false) => "save-new-not-persisted",
                (Cmd::Save(..), true) => "save-existing-not-persisted",
                _ => "delete-not-persisted",
            };
            if diff.is_empty() && known(sig) {
                c.known.push(format!("{sig}: the command exits 0 and leaves the disk as it was"));
            } else {
                return bad(format!("{args:?} exits 0 but its document's file {own:?} is {:?}", now.map(|b| b.len())), &diff);
            }
        } else {
            c.count("persisted_as_asked", 1);
        }
    }
    let _ = root.as_os_str().as_bytes();
    Ok(())
}
