//! Random document trees on disk, and what they contain according to the generator.

use std::ffi::OsString;
use std::fs;
use std::os::unix::ffi::{OsStrExt, OsStringExt};
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicU64, Ordering};

use vcommon::Rng;

static SCRATCH: AtomicU64 = AtomicU64::new(0);

/// A scratch directory, removed when dropped.
pub struct Scratch(pub PathBuf);
impl Scratch {
    pub fn new() -> Self {
        let n = SCRATCH.fetch_add(1, Ordering::Relaxed);
        let p = std::env::temp_dir().join(format!("verif-cli-{}-{n}", std::process::id()));
        fs::create_dir_all(&p).expect("scratch");
        Scratch(p)
    }
}
impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = fs::remove_dir_all(&self.0);
    }
}

#[derive(Clone, Debug, PartialEq)]
pub enum Kind {
    File(Vec<u8>),
    /// A second name of an earlier file.
    Hard(PathBuf, Vec<u8>),
    Dir,
    Dangling,
    LinkToDir,
    LinkToFile,
    Fifo,
}

#[derive(Clone, Debug)]
pub struct Entry {
    pub rel: PathBuf,
    pub kind: Kind,
}

pub struct Tree {
    pub ext: String,
    pub entries: Vec<Entry>,
    pub rules: Vec<(PathBuf, Vec<String>)>,
    pub rule_file: &'static str,
    /// Rules in `.ignore` files above the base directory: levels up, patterns.
    pub above: Vec<(usize, Vec<String>)>,
}

/// The content of the file that links to files lead to.
pub fn linked() -> Vec<u8> {
    (0..4000u32).map(|i| (i * 13 >> 2) as u8).collect()
}

impl Kind {
    /// The content, if this is a regular file.
    pub fn bytes(&self) -> Option<&Vec<u8>> {
        match self {
            Kind::File(b) | Kind::Hard(_, b) => Some(b),
            _ => None,
        }
    }
}

pub const EXTS: &[&str] = &[
    "md", "md", "md", "md", "txt", "MD", "tar.gz", "c++", "a(b", "[x]", "*", "", "m d", "é", "md~", "$", "m.d", "a|b", "^m", "\\", "{2}", "d", "\u{FFFD}", "md\n", ".", "x?", "b)",
];

fn name(r: &mut Rng, wild: bool) -> Vec<u8> {
    const PLAIN: &[&str] = &["a", "b", "c", "notes", "todo", "readme", "x1", "Alpha", "beta", "z"];
    const WILD: &[&[u8]] = &[
        b"notes.v1", b"notes.v2", b"a b", b" lead", b"trail ", b"dot.", b"two..dots", b"a.b.c", "\u{e9}t\u{e9}".as_bytes(), b"\xff\xfe", b"bad\xc3", b"new\nline", b"quote\"s", b"back\\slash", b"#hash", b"~tilde",
        b"-dash", b"100%", b"x.md", b"md", b"a.md.md", b"{br}", b"[y]", b"star*", b"tab\there", b"UPPER.MD", b"q?", b"$v", b"(p)", b"1.0.2", b"\xe2\x80\xae", b"a.tar", b"com+ma,semi;",
    ];
    if wild && r.chance(55) {
        r.pick(WILD).to_vec()
    } else {
        let mut v = r.pick(PLAIN).as_bytes().to_vec();
        if r.chance(25) {
            v.extend(format!("{}", r.below(20)).bytes());
        }
        if wild && r.chance(2) {
            v.extend(std::iter::repeat(b'l').take(180));
        }
        v
    }
}

/// A name for the base directory.
pub fn base_name(r: &mut Rng, ext: &str) -> OsString {
    let v: Vec<u8> = match r.below(20) {
        0 | 1 if !ext.contains('/') => format!("base.{ext}").into_bytes(),
        2 => b"with space".to_vec(),
        3 => b"b\xffse".to_vec(),
        4 => b"v1.2".to_vec(),
        5 => b".hidden-base".to_vec(),
        6 => match r.below(8) {
            0 => b"new\nline".to_vec(),
            1 => b"-C".to_vec(),
            2 => vec![b'n'; 255],
            3 => b"[x]*?{a,b}".to_vec(),
            4 => b"caf\xc3\xa9 \xe2\x80\xae".to_vec(),
            5 => b"quote\"s and 'ticks' \\".to_vec(),
            6 => b" ".to_vec(),
            _ => b"~".to_vec(),
        },
        7 => name(r, true),
        _ => b"base".to_vec(),
    };
    OsString::from_vec(v)
}

fn content(r: &mut Rng, uid: u64) -> Vec<u8> {
    const HEADS: &[&[u8]] = &[
        b"\xef\xbb\xbf", b"\xff\xfe", b"\xfe\xff\0a", b"---\ntitle: x\n---\n", b"\r\n", b"\n\n", b"  \t", b"#!/bin/sh\n", b"\0\0\0", b"\xc3\x28", b"\xe2\x80\xa8", b"e\xcc\x81", b"\x1b[0m", b"\x1f\x8b\x08",
    ];
    const TAILS: &[&[u8]] = &[b"\r\n", b"\n", b"\n\n\n", b"   ", b"\t", b"\0", b"\r", b"\xef\xbb\xbf", b"\x1a", b"\\", b"\xf0\x9f"];
    let mut v = match r.below(8) {
        0 => return if r.chance(70) { vec![] } else { r.pick(TAILS).to_vec() },
        1 => vec![0, 255, 13, 10],
        2 => (0..r.below(20_000)).map(|i| (i * 7) as u8).collect(),
        3 | 4 => r.pick(HEADS).to_vec(),
        5 if r.chance(1) => (0..1 + r.below(3_000_000)).map(|i| (i * 31 >> 3) as u8).collect(),
        _ => b"text ".to_vec(),
    };
    v.extend(format!("#{uid}").bytes());
    if r.chance(30) {
        v.extend_from_slice(r.pick(TAILS));
    }
    if r.chance(4) {
        // A whole number of blocks, or about, with the same bytes up to the end.
        let block = *r.pick(&[256, 512, 1024, 4096, 4096, 8192, 16384, 65536]);
        let len = v.len().div_ceil(block) * block * (1 + r.below(2)) + *r.pick(&[0, 0, 0, 0, 1, block - 1]);
        v.resize(len, *r.pick(&[0, 0, b'\n', b' ', b'\r', 0xff, b'x', 0x1a]));
    }
    v
}

impl Tree {
    pub fn generate(r: &mut Rng, wild: bool, odd_kinds: bool, rules: bool) -> Tree {
        let ext = if wild { r.pick(EXTS).to_string() } else { "md".to_string() };
        let mut dirs: Vec<PathBuf> = vec![PathBuf::new()];
        let mut entries: Vec<Entry> = vec![];
        let mut uid = 0;
        let n = r.below(if wild { 30 } else { 10 });
        for _ in 0..r.below(8) {
            let mut nm = name(r, wild);
            if r.chance(15) {
                nm.extend(b".");
                nm.extend(ext.bytes());
            }
            if r.chance(8) {
                nm.insert(0, b'.');
            }
            let rel = r.pick(&dirs).join(OsString::from_vec(nm));
            if !entries.iter().any(|e| e.rel == rel) {
                entries.push(Entry { rel: rel.clone(), kind: Kind::Dir });
                dirs.push(rel);
            }
        }
        if wild && r.chance(6) {
            // A chain of directories, of many or of long names.
            let mut d = r.pick(&dirs).clone();
            let long = r.chance(30);
            for i in 0..if long { 2 + r.below(9) } else { 5 + r.below(60) } {
                d = if long { d.join("long".repeat(20 + r.below(40))) } else { d.join(if i % 3 == 0 { "d" } else { "sub" }) };
                if !entries.iter().any(|e| e.rel == d) {
                    entries.push(Entry { rel: d.clone(), kind: Kind::Dir });
                }
                dirs.push(d.clone());
            }
            let last = d.clone();
            dirs.extend(std::iter::repeat_n(last, 20));
        }
        // Now and then one directory with very many documents.
        let n = if wild && r.chance(1) && r.chance(30) { 300 + r.below(1500) } else { n };
        for _ in 0..n {
            uid += 1;
            let mut nm = name(r, wild);
            match r.below(14) {
                0 => {}
                1 => {
                    // Names close to the extension.
                    nm.extend(match r.below(if wild { 9 } else { 6 }) {
                        6 => format!(".{ext}{}", r.pick(&["\n", "\r", " ", "\t", "\0x", "\u{85}", "\u{2028}", "\u{200b}", "~", "\\", "$"]).replace('\0', "\u{1}")),
                        7 => format!(".{ext}{}", r.pick(&["\nc", "\r\nc", ".bak", ".swp", " (1)", "~1", "#", ".tmp", ".orig", "\n.x", "-"])),
                        8 => format!("\n.{ext}"),
                        0 => format!("{ext}"),
                        1 => format!(".{ext}x"),
                        2 => format!(".x{ext}"),
                        3 => format!(".{ext}."),
                        4 => format!(".{}", ext.to_uppercase()),
                        _ => format!(".{ext}.{ext}"),
                    }.bytes());
                }
                2 => nm.extend(b".txt"),
                3 => nm.extend(b".\xff"),
                _ => {
                    nm.push(b'.');
                    nm.extend(ext.bytes());
                }
            }
            if r.chance(6) {
                nm.insert(0, b'.');
            }
            if n > 200 {
                nm = format!("{uid}-").into_bytes().into_iter().chain(nm).collect();
            }
            nm.truncate(250);
            if nm.contains(&b'/') || nm == b"." || nm == b".." || nm.is_empty() {
                continue;
            }
            let rel = r.pick(&dirs).join(OsString::from_vec(nm));
            if entries.iter().any(|e| e.rel == rel) {
                continue;
            }
            let kind = match r.below(34) {
                4 | 5 if wild => {
                    let files: Vec<(PathBuf, Vec<u8>)> = entries
                        .iter()
                        .filter_map(|e| match &e.kind {
                            Kind::File(b) => Some((e.rel.clone(), b.clone())),
                            _ => None,
                        })
                        .collect();
                    match files.is_empty() {
                        true => Kind::File(content(r, uid)),
                        false => {
                            let (a, b) = r.pick(&files).clone();
                            Kind::Hard(a, b)
                        }
                    }
                }
                0 if odd_kinds => Kind::Dangling,
                1 if odd_kinds => Kind::LinkToDir,
                2 if odd_kinds => Kind::LinkToFile,
                3 if odd_kinds => Kind::Fifo,
                _ => Kind::File(content(r, uid)),
            };
            entries.push(Entry { rel, kind });
        }
        let mut t = Tree { ext, entries, rules: vec![], rule_file: [".ignore", ".gitignore", ".git/info/exclude"][r.weighted(&[4, 4, 1])], above: vec![] };
        if rules && r.chance(40) {
            let above = r.chance(25);
            for _ in 0..1 + r.below(2) {
                let mut dir = r.pick(&dirs).clone();
                if above || t.rule_file == ".git/info/exclude" {
                    dir = PathBuf::new();
                }
                if t.rules.iter().any(|x| x.0 == dir) {
                    continue;
                }
                let plain: Vec<String> = t
                    .entries
                    .iter()
                    .filter(|e| dir.as_os_str().is_empty() || e.rel.starts_with(&dir))
                    .filter_map(|e| e.rel.file_name()?.to_str().map(str::to_owned))
                    .filter(|s| s.chars().all(|c| c.is_ascii_alphanumeric() || c == '.') && !s.starts_with('.'))
                    .collect();
                let mut list = vec![];
                for _ in 0..1 + r.below(3) {
                    if plain.is_empty() {
                        break;
                    }
                    let p = r.pick(&plain).clone();
                    list.push(match r.below(11) {
                        6 => p.chars().map(|c| if c.is_ascii_lowercase() { c.to_ascii_uppercase() } else { c.to_ascii_lowercase() }).collect(),
                        7 => format!("[a-y]{}", &p[1..]),
                        8 => format!("**/{p}"),
                        9 => format!("# {p}\n\n{p}0"),
                        0 => format!("{p}/"),
                        1 => format!("/{p}"),
                        2 => match p.split_once('.') {
                            Some((_, s)) if !s.is_empty() => format!("*.{s}"),
                            _ => p,
                        },
                        3 => format!("!{p}"),
                        _ => p,
                    });
                }
                if list.is_empty() {
                    continue;
                }
                if above {
                    t.above.push((1 + t.above.len(), list));
                } else {
                    t.rules.push((dir, list));
                }
            }
        }
        t
    }

    /// Adds very many entries, most of them in one directory.
    pub fn crowd(&mut self, r: &mut Rng) {
        let dirs: Vec<PathBuf> = std::iter::once(PathBuf::new()).chain(self.entries.iter().filter(|e| e.kind == Kind::Dir).map(|e| e.rel.clone())).collect();
        let full = r.pick(&dirs).clone();
        for i in 0..*r.pick(&[2100, 4200, 5100, 8300, 10_100]) + r.below(100) {
            let d = if r.chance(90) { &full } else { r.pick(&dirs) };
            let (rel, kind) = match r.below(20) {
                0 => (d.join(format!("crowd{i}")), Kind::Dir),
                1 => (d.join(format!("crowd{i}.other")), Kind::File(vec![])),
                _ => (d.join(format!("crowd{i}.{}", self.ext)), Kind::File(vec![])),
            };
            self.entries.push(Entry { rel, kind });
        }
    }

    pub fn write(&self, root: &Path) -> std::io::Result<()> {
        fs::create_dir_all(root)?;
        let outside = root.parent().unwrap();
        fs::create_dir_all(outside.join("elsewhere/inner"))?;
        fs::write(outside.join("elsewhere/file"), linked())?;
        fs::write(outside.join(format!("elsewhere/inner/in.{}", self.ext)), b"not under the base")?;
        for e in &self.entries {
            let p = root.join(&e.rel);
            match &e.kind {
                Kind::Dir => fs::create_dir_all(&p)?,
                Kind::File(b) => fs::write(&p, b)?,
                Kind::Hard(first, _) => fs::hard_link(root.join(first), &p)?,
                Kind::Dangling => std::os::unix::fs::symlink("nowhere-at-all", &p)?,
                Kind::LinkToDir => std::os::unix::fs::symlink(outside.join("elsewhere/inner"), &p)?,
                Kind::LinkToFile => std::os::unix::fs::symlink(outside.join("elsewhere/file"), &p)?,
                Kind::Fifo => {
                    let st = std::process::Command::new("mkfifo").arg("--").arg(&p).status()?;
                    assert!(st.success());
                }
            }
        }
        if !self.rules.is_empty() && self.rule_file != ".ignore" {
            fs::create_dir_all(root.join(".git/info"))?;
        }
        for (up, list) in &self.above {
            let mut d = root;
            for _ in 0..*up {
                d = d.parent().unwrap();
            }
            fs::write(d.join(".ignore"), list.join("\n") + "\n")?;
        }
        for (d, list) in &self.rules {
            fs::write(root.join(d).join(self.rule_file), list.join("\n") + "\n")?;
        }
        Ok(())
    }

    fn matches(list: &[String], inner: Option<&Path>, base: &[u8], is_dir: bool) -> Option<bool> {
        let lines: Vec<&str> = list.iter().flat_map(|l| l.split('\n')).filter(|l| !l.is_empty() && !l.starts_with('#')).collect();
        for rule in lines.into_iter().rev() {
            let (neg, body) = match rule.strip_prefix('!') {
                Some(b) => (true, b),
                None => (false, rule),
            };
            let body = body.strip_prefix("**/").unwrap_or(body);
            let hit = if let Some(s) = body.strip_prefix("[a-y]") {
                base.strip_suffix(s.as_bytes()).is_some_and(|x| x.len() == 1 && (b'a'..=b'y').contains(&x[0]))
            } else if let Some(s) = body.strip_prefix('*') {
                base.ends_with(s.as_bytes())
            } else if let Some(s) = body.strip_prefix('/') {
                inner.is_some_and(|i| i.as_os_str().as_bytes() == s.as_bytes())
            } else if let Some(s) = body.strip_suffix('/') {
                is_dir && base == s.as_bytes()
            } else {
                base == body.as_bytes()
            };
            if hit {
                return Some(!neg);
            }
        }
        None
    }

    fn decide(&self, rel: &Path, is_dir: bool) -> bool {
        // The deepest rule file with a matching rule decides; within a file the last match.
        let mut dir = rel.parent();
        while let Some(d) = dir {
            if let Some((_, list)) = self.rules.iter().find(|x| x.0 == d) {
                let inner = rel.strip_prefix(d).unwrap();
                if let Some(x) = Self::matches(list, Some(inner), rel.file_name().unwrap().as_bytes(), is_dir) {
                    return x;
                }
            }
            dir = d.parent();
        }
        for (_, list) in &self.above {
            if let Some(x) = Self::matches(list, None, rel.file_name().unwrap().as_bytes(), is_dir) {
                return x;
            }
        }
        false
    }

    fn visible(&self, rel: &Path) -> bool {
        let mut p = PathBuf::new();
        let comps: Vec<_> = rel.components().collect();
        for (i, c) in comps.iter().enumerate() {
            p.push(c);
            if c.as_os_str().as_bytes().starts_with(b".") {
                return false;
            }
            if self.decide(&p, i + 1 < comps.len()) {
                return false;
            }
        }
        true
    }

    /// The id of a file, if its name ends in a dot and the extension.
    pub fn id_of(&self, rel: &Path) -> Option<PathBuf> {
        let b = rel.as_os_str().as_bytes();
        let suffix = format!(".{}", self.ext);
        let stem = b.strip_suffix(suffix.as_bytes())?;
        if stem.is_empty() || stem.ends_with(b"/") {
            return None;
        }
        Some(PathBuf::from(OsString::from_vec(stem.to_vec())))
    }

    /// Documents that must be listed: (id, content).
    pub fn documents(&self) -> Vec<(PathBuf, Vec<u8>)> {
        let mut v: Vec<_> = self
            .entries
            .iter()
            .filter_map(|e| match e.kind.bytes() {
                Some(b) if self.visible(&e.rel) => Some((self.id_of(&e.rel)?, b.clone())),
                _ => None,
            })
            .collect();
        v.sort();
        v
    }
    /// Ids that may be listed or not (links to regular files).
    pub fn optional(&self) -> Vec<PathBuf> {
        self.entries.iter().filter(|e| e.kind == Kind::LinkToFile).filter_map(|e| self.id_of(&e.rel)).collect()
    }
    pub fn show(&self) -> String {
        let mut o = format!("extension {:?}\n", self.ext);
        for e in &self.entries {
            let k = match &e.kind {
                Kind::File(b) => format!("file of {} bytes", b.len()),
                Kind::Hard(a, b) => format!("another name of {a:?}, {} bytes", b.len()),
                k => format!("{k:?}"),
            };
            o.push_str(&format!("{:?}: {k}\n", e.rel));
        }
        for (up, l) in &self.above {
            o.push_str(&format!(".ignore {up} above the base: {l:?}\n"));
        }
        for (d, l) in &self.rules {
            o.push_str(&format!("{} in {d:?}: {l:?}\n", self.rule_file));
        }
        o
    }
}
