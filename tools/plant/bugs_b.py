import os, importlib.util
_s = importlib.util.spec_from_file_location("a", os.path.join(os.path.dirname(os.path.abspath(__file__)), "bugs_a.py")); _m = importlib.util.module_from_spec(_s); _s.loader.exec_module(_m)
NODE, TX = _m.NODE, _m.TX
LAZY = "plotline/src/document/lazy.rs"; REPO = "plotline-cli/src/repository.rs"; CLI = "plotline-cli/src/document.rs"
IN, IT, ID = "plugins/interval/src/node.rs", "plugins/interval/src/tree.rs", "plugins/interval/src/date.rs"
DOC = '''
#![allow(unused)]
use plotline::{prelude::*, document::{DocumentRepository, lazy::LazyDocument}};
use std::sync::{Arc, Mutex, Barrier, atomic::{AtomicUsize, Ordering::SeqCst}};
#[derive(Debug, Clone, PartialEq)]
struct D { id: u32, v: usize }
impl Identify for D { type Id = u32; fn id(&self) -> &u32 { &self.id } }
struct R { asked: AtomicUsize, has: bool }
impl DocumentRepository for R { type Document = D; fn find_by_id(&self, id: &u32) -> Option<D> { let n = self.asked.fetch_add(1, SeqCst); (self.has && n == 0).then(|| D { id: *id, v: n }) } }
fn repo(has: bool) -> Arc<R> { Arc::new(R { asked: AtomicUsize::new(0), has }) }
'''
FS = '''
#![allow(unused)]
use plotline::{prelude::*, document::DocumentRepository};
use plotline_cli::repository::LocalDocumentRepository;
use std::{sync::Arc, path::PathBuf, fs};
fn repo(ext: &str) -> Arc<LocalDocumentRepository> { Arc::new(LocalDocumentRepository { context: PathBuf::from("."), extension: ext.into() }) }
fn ids(r: &Arc<LocalDocumentRepository>) -> Vec<PathBuf> { let mut v: Vec<_> = r.all().map(|d| d.id().clone()).collect(); v.sort(); v }
'''
IVL = '''
#![allow(unused)]
use ivl::{Interval, IntervalSearchTree};
#[derive(Debug, Clone, Copy, PartialEq)] struct I(i32, i32);
impl Interval for I { type Bound = i32; fn lo(&self) -> i32 { self.0 } fn hi(&self) -> i32 { self.1 } }
fn hits(t: &IntervalSearchTree<I>, q: I) -> Vec<(i32, i32)> { let mut v = vec![]; t.for_each_intersection(&q, |i| v.push((i.0, i.1))); v.sort(); v }
'''
BUGS = [
dict(id="b18", property="C12", edits=[(LAZY, '''            document: self.document.clone(),''', '''            document: Default::default(),''')],
 needs="a copy of a lazy document that already has its document (built from one, or loaded)",
 breaks="a copy forgets the document and consults the repository again",
 demo=DOC + '''fn main() { let r = repo(false); let l = LazyDocument::new(r.clone(), D { id: 1, v: 7 }); assert_eq!(l.clone().try_deref().map(|d| d.v), Some(7)); }'''),
dict(id="b19", property="C12", edits=[(LAZY, '''        if let doc @ Some(_) = self.document.get() {
            return doc;
        }

''', '''        let cached = self.document.get();
        if cached.is_some() && Arc::strong_count(&self.document_repo) == 1 {
            return cached;
        }

''')],
 needs="a second dereference while other documents share the repository, which no longer has the document",
 breaks="a found document is only served from memory when nothing else shares the repository",
 demo=DOC + '''fn main() { let r = repo(true); let l = LazyDocument::builder(r.clone())(1); assert!(l.try_deref().is_some()); assert!(l.try_deref().is_some()); assert_eq!(r.asked.load(SeqCst), 1); }'''),
dict(id="b20", property="C13", kind="cli", edits=[(REPO, '''        fs::read(&path)''', '''        fs::read_to_string(&path)
            .map(String::into_bytes)''')],
 needs="a document whose content is not UTF-8",
 breaks="documents with bytes that are not UTF-8 are listed but cannot be loaded",
 demo=FS + '''fn main() { fs::write("a.md", [0xff, 0xfe, 0]).unwrap(); let r = repo("md"); assert_eq!(ids(&r), vec![PathBuf::from("a")]); assert_eq!(r.find_by_id(&"a".into()).map(|d| d.bytes), Some(vec![0xff, 0xfe, 0])); }'''),
dict(id="b21", property="C13", kind="cli", edits=[(REPO, '''        fs::read(&path)''', '''        fs::read(&path)
            .map(|mut bytes| {
                if bytes.starts_with(b"\\xef\\xbb\\xbf") {
                    bytes.drain(..3);
                }

                bytes
            })''')],
 needs="a document that starts with a byte-order mark",
 breaks="the byte-order mark of a document is dropped when it is loaded",
 demo=FS + '''fn main() { fs::write("a.md", b"\\xef\\xbb\\xbfx").unwrap(); let r = repo("md"); assert_eq!(r.find_by_id(&"a".into()).map(|d| d.bytes), Some(b"\\xef\\xbb\\xbfx".to_vec())); }'''),
dict(id="b22", property="C14", kind="cli", edits=[(REPO, '''        Walk::new(&self.context)
''', '''        WalkBuilder::new(&self.context)
            .max_depth(Some(12))
            .build()
'''), (REPO, "use ignore::Walk;", "use ignore::WalkBuilder;")],
 needs="a document more than twelve levels below the base directory",
 breaks="deeply nested documents are not listed",
 demo=FS + '''fn main() { let d = PathBuf::from("d/".repeat(14)); fs::create_dir_all(&d).unwrap(); fs::write(d.join("a.md"), "x").unwrap(); assert_eq!(ids(&repo("md")), vec![d.join("a")]); }'''),
dict(id="b23", property="C14", kind="cli", edits=[(REPO, '''        Walk::new(&self.context)
''', '''        WalkBuilder::new(&self.context)
            .parents(false)
            .build()
'''), (REPO, "use ignore::Walk;", "use ignore::WalkBuilder;")],
 needs="an ignore file in a directory above the base directory",
 breaks="ignore files of parent directories are not honoured",
 demo=FS + '''fn main() { fs::create_dir_all("base").unwrap(); fs::write(".ignore", "secret.md\\n").unwrap(); fs::write("base/secret.md", "x").unwrap(); fs::write("base/a.md", "x").unwrap();
 let r = Arc::new(LocalDocumentRepository { context: std::env::current_dir().unwrap().join("base"), extension: "md".into() });
 assert_eq!(ids(&r), vec![PathBuf::from("a")]); }'''),
dict(id="b24", property="C15", kind="bin", edits=[(CLI, '''            DocumentSubCommand::Delete => {
                Delete::new(document_id()?).execute(self.schema.transaction())?
            }''', '''            DocumentSubCommand::Delete => {
                match Delete::new(document_id()?).execute(self.schema.transaction()) {
                    // Already gone, which is what has been asked for.
                    Err(plotline::schema::Error::Noop) => {}
                    result => result?,
                }
            }''')],
 needs="a delete command for an id that is not present",
 breaks="deleting a missing document succeeds",
 demo='''echo x > a.md
if "$plot" doc nothere delete 2> /dev/null; then exit 1; fi
'''),
dict(id="b25", property="C15", kind="cli", edits=[(CLI, '''                    bytes: args.content.map(|s| s.into_bytes()).unwrap_or_default(),''', '''                    bytes: args
                        .content
                        .map(|s| s.replace("\\r\\n", "\\n").into_bytes())
                        .unwrap_or_default(),''')],
 needs="a save command whose content has a carriage return before a line feed",
 breaks="line endings in the content of a save are rewritten",
 demo='''
use plotline::{prelude::*, graph::{Graph, Source}};
use plotline_cli::{repository::LocalDocumentRepository, document::{DocumentCli, DocumentCommand}};
use std::{sync::Arc, path::PathBuf};
use std::process::Command;
fn main() {
 // The command type is opaque: parse it the way the binary does.
 let repo = Arc::new(LocalDocumentRepository { context: PathBuf::from("."), extension: "md".into() });
 let cli = DocumentCli { schema: Arc::new(Schema::from(Graph::from_iter(repo.all()))), document_repo: repo.clone() };
 let m = <DocumentCommand as clap::Args>::augment_args(clap::Command::new("t")).get_matches_from(["t", "x", "save", "a\\r\\nb"]);
 cli.execute(<DocumentCommand as clap::FromArgMatches>::from_arg_matches(&m).unwrap()).unwrap();
 assert_eq!(cli.schema.read().get(&PathBuf::from("x")).unwrap().try_deref().unwrap().bytes, b"a\\r\\nb".to_vec());
}''', deps='clap = { version = "4.5", features = ["derive", "env", "string"] }'),
dict(id="b26", property="C16", kind="ivl", edits=[(IN, '''            let Some(left) = &node.left else {
                return;
            };

            if left.max < interval.lo() {''', '''            let Some(left) = &node.left else {
                return;
            };

            if left.max <= interval.lo() {''')],
 needs="a query whose lower bound equals the highest upper bound of a left subtree",
 breaks="intervals that touch the query in a single point are missed on a left side",
 demo=IVL + '''fn main() { let t = IntervalSearchTree::default().with_interval(I(5, 9)).with_interval(I(1, 4)); assert_eq!(hits(&t, I(4, 4)), vec![(1, 4)]); }'''),
dict(id="b27", property="C16", kind="ivl", edits=[(IN, '''            left: Default::default(),
            right: Default::default(),
        }
    }

    /// Returns true if, and only if, there is an interval in the tree that intersects the given
    /// one.
    pub fn intersects(&self, interval: &Intv) -> bool {
        if self.value.intersects(interval) {
            return true;
        }

        let continue_right = || {
            self.right
                .as_ref()
                .is_some_and(|right| right.intersects(interval))
        };''', '''            left: Default::default(),
            right: Default::default(),
        }
    }

    /// Returns true if, and only if, there is an interval in the tree that intersects the given
    /// one.
    pub fn intersects(&self, interval: &Intv) -> bool {
        if self.value.intersects(interval) {
            return true;
        }

        let continue_right = || {
            self.right
                .as_ref()
                .filter(|right| right.value.lo() <= interval.hi())
                .is_some_and(|right| right.intersects(interval))
        };''')],
 needs="a tree whose right subtree has a root beyond the query but an overlapping interval on its left side",
 breaks="intersects misses intervals below a right child that itself starts after the query",
 demo=IVL + '''fn main() { let t = IntervalSearchTree::default().with_interval(I(0, 0)).with_interval(I(9, 9)).with_interval(I(4, 5)); assert!(t.intersects(&I(4, 4))); }'''),
dict(id="b28", property="C17", kind="ivl", edits=[(ID, '''        for (this, other) in self.components.iter().zip(&other.components) {''', '''        for (this, other) in self.components.iter().zip(&other.components).take(4) {''')],
 needs="big-endian dates of five or more components that differ only after the fourth",
 breaks="big-endian dates are compared by their first four components only",
 demo='''use ivl::date::*; fn main() { let a: BigEndianDate<5, i32> = Date::fixture([1, 2, 3, 4, 5]); let b = Date::fixture([1, 2, 3, 4, 6]); assert!(a < b); assert!(a != b); }'''),
dict(id="b29", property="C18", edits=[(TX, '''        ops.into_iter().for_each(|op| match op {''', '''        // Do not keep readers waiting between one operation and the next.
        let schema = self.schema;
        drop(guard);

        ops.into_iter().map(|op| (schema.write(), op)).for_each(|(mut guard, op)| match op {'''),
 (TX, '''        let Some(mut guard) = self.guard.take() else {''', '''        let Some(guard) = self.guard.take() else {''')],
 needs="two threads: a reader (or another transaction) between two operations of a committing transaction",
 breaks="a commit applies its operations one by one, each under its own access, so others see part of a transaction",
 demo=NODE + '''
struct Shared(Schema<N>);
unsafe impl Sync for Shared {}
fn main() {
 let s = Shared(Schema::from(Graph::default()));
 let s = &s;
 let stop = std::sync::atomic::AtomicBool::new(false);
 let torn = std::sync::atomic::AtomicUsize::new(0);
 std::thread::scope(|sc| {
  for _ in 0..3 { sc.spawn(|| while !stop.load(std::sync::atomic::Ordering::SeqCst) {
    let s = s; let g = s.0.read(); let v: Vec<String> = g.into_iter().map(|x| x.v.clone()).collect();
    if v.iter().any(|x| x != &v[0]) { torn.fetch_add(1, std::sync::atomic::Ordering::SeqCst); } }); }
  for i in 0..3000 { let s = s; s.0.transaction().with(|c| { for id in 0..20 { c.save(n(id, &i.to_string())); } Ok(()) }).unwrap(); }
  stop.store(true, std::sync::atomic::Ordering::SeqCst);
 });
 assert_eq!(torn.load(std::sync::atomic::Ordering::SeqCst), 0);
}'''),
dict(id="b30", property="C19", edits=[
 ("plotline/src/schema/trigger.rs", '''        let trigger: Box<dyn Trigger<T, ()>> = Box::new(ArglessTrigger::from(trigger));''', '''        // Triggers live as long as the program does: keep them shared.
        let trigger: &'static ArglessTrigger<_, Args> =
            Box::leak(Box::new(ArglessTrigger::from(trigger)));
        let trigger: Box<dyn Trigger<T, ()>> = Box::new(trigger);'''),
 ("plotline/src/schema/trigger.rs", '''impl<T, Tr, Args> Trigger<T, ()> for ArglessTrigger<Tr, Args>
where
    T: Identify,
    Tr: Trigger<T, Args>,
{
    fn execute(&self, ctx: &Context<'_, T>) -> Result<()> {
        self.trigger.execute(ctx)
    }
}''', '''impl<T, Tr, Args> Trigger<T, ()> for &ArglessTrigger<Tr, Args>
where
    T: Identify,
    Tr: Trigger<T, Args>,
{
    fn execute(&self, ctx: &Context<'_, T>) -> Result<()> {
        self.trigger.execute(ctx)
    }
}''')],
 needs="a trigger that owns something, and a schema that is dropped",
 breaks="triggers are leaked: what they own is never released when the schema is dropped",
 demo=NODE + '''fn main() { let r = Rc::new(()); let k = r.clone(); let s: Schema<N> = Schema::from(Graph::default()).with_trigger(BeforeSave, move |_: Ctx<N>| { let _ = &k; Ok(()) }); drop(s); assert_eq!(Rc::strong_count(&r), 1); }'''),
dict(id="b31", property="C20", kind="bin", edits=[(REPO, '''        Walk::new(&self.context)
''', '''        // A missing base directory is an empty one.
        if let Err(err) = fs::create_dir_all(&self.context) {
            tracing::error!(error = err.to_string(), "creating base directory");
        }

        Walk::new(&self.context)
''')],
 needs="a command run with a base directory that does not exist",
 breaks="any command, listing included, creates the missing base directory",
 demo='''"$plot" -C "$PWD/missing/base" doc list > /dev/null 2>&1 || true
test ! -e missing
'''),
dict(id="b32", property="C22", edits=[("plotline/src/schema/resource.rs", "RwLock, RwLockReadGuard, RwLockWriteGuard", "Mutex, MutexGuard"),
 ("plotline/src/schema/resource.rs", "Arc<RwLock<Box<dyn Any>>>", "Arc<Mutex<Box<dyn Any>>>"),
 ("plotline/src/schema/resource.rs", "Arc::new(RwLock::new(Box::new(resource)))", "Arc::new(Mutex::new(Box::new(resource)))"),
 ("plotline/src/schema/resource.rs", "Option<RwLockReadGuard<'a, Box<dyn Any>>>", "Option<MutexGuard<'a, Box<dyn Any>>>"),
 ("plotline/src/schema/resource.rs", "Option<RwLockWriteGuard<'a, Box<dyn Any>>>", "Option<MutexGuard<'a, Box<dyn Any>>>"),
 ("plotline/src/schema/resource.rs", "lock.read()", "lock.lock()"), ("plotline/src/schema/resource.rs", "lock.write()", "lock.lock()")], count={"Arc<RwLock<Box<dyn Any>>>": 2},
 needs="reading a resource while already reading it (twice in a tuple, or nested)",
 breaks="a second concurrent read of a resource blocks for ever",
 demo=NODE + '''fn main() {
 std::thread::spawn(|| { std::thread::sleep(std::time::Duration::from_secs(5)); std::process::exit(3) });
 let s: Schema<N> = Schema::from(Graph::default()).with_resource(5u8);
 let a = Res::<u8>::from(s.resources()); let b = Res::<u8>::from(s.resources());
 assert_eq!((a, b).with(|(x, y)| *x + *y), Some(10));
}'''),
dict(id="b33", property="C23", edits=[(LAZY, '''    sync::{Arc, OnceLock},''', '''    cell::UnsafeCell,
    sync::Arc,'''),
 (LAZY, '''/// A lazy-loading document from''', '''/// A cell that is written once.
struct Once<T>(UnsafeCell<Option<T>>);

// SAFETY: the cell is never written again once it holds a value.
unsafe impl<T: Send + Sync> Sync for Once<T> {}

impl<T> Default for Once<T> {
    fn default() -> Self {
        Self(UnsafeCell::new(None))
    }
}

impl<T: Clone> Clone for Once<T> {
    fn clone(&self) -> Self {
        Self(UnsafeCell::new(self.get().cloned()))
    }
}

impl<T> Once<T> {
    fn get(&self) -> Option<&T> {
        unsafe { &*self.0.get() }.as_ref()
    }

    fn get_or_init(&self, f: impl FnOnce() -> T) -> &T {
        let value = f();
        if self.get().is_none() {
            unsafe { *self.0.get() = Some(value) };
        }

        self.get().unwrap()
    }

    fn set(&self, value: T) -> Result<(), ()> {
        self.get_or_init(|| value);
        Ok(())
    }
}

/// A lazy-loading document from'''),
 (LAZY, '''    document: OnceLock<DocumentRepo::Document>,''', '''    document: Once<DocumentRepo::Document>,''')],
 needs="two threads dereferencing the same lazy document for the first time at once",
 breaks="the cached document is written without synchronisation: a data race, and a thread may see a half-written or freed document",
 demo=DOC.replace("struct D { id: u32, v: usize }", "struct D { id: u32, v: usize, big: Vec<usize> }").replace("D { id: *id, v: n }", "D { id: *id, v: n, big: vec![n; 64] }").replace("(self.has && n == 0)", "self.has") + '''fn main() {
 for round in 0..6000 {
  let r = repo(true); let l = LazyDocument::builder(r.clone())(1); let b = Barrier::new(4);
  let seen: Vec<usize> = std::thread::scope(|s| { let t: Vec<_> = (0..4).map(|_| s.spawn(|| { b.wait(); l.try_deref().unwrap() as *const D as usize; l.try_deref().unwrap().v })).collect(); t.into_iter().map(|t| t.join().unwrap()).collect() });
  let now = l.try_deref().unwrap().v;
  assert!(seen.iter().all(|v| *v == now), "round {round}: {seen:?} {now}");
 }
}'''),
dict(id="b34", property="C23", edits=[(TX, '''        let Some(ops) = Arc::into_inner(self.operations) else {
            tracing::error!("commiting transaction with contexts yet in use");
            return;
        };

        let ops = match ops.into_inner() {
            Ok(ops) => ops,
            Err(err) => {
                tracing::error!(error = err.to_string(), "committing poisoned transaction");
                return;
            }
        };

        let mut upstream_ops = match''', '''        // The operations are moved out rather than unwrapped.
        let ops = match self.operations.write() {
            Ok(mut ops) => std::mem::ManuallyDrop::new(std::mem::take(&mut *ops)),
            Err(err) => {
                tracing::error!(error = err.to_string(), "committing poisoned transaction");
                return;
            }
        };

        let mut upstream_ops = match'''), (TX, '''        upstream_ops.extend(ops);''', '''        upstream_ops.reserve(ops.len());
        for index in 0..ops.len() {
            // SAFETY: each operation is read exactly once and never dropped in its old place.
            upstream_ops.push(unsafe { std::ptr::read(ops.as_ptr().add(index)) });
        }''')],
 needs="any committed subtransaction with changes, watched for leaked memory",
 breaks="the buffer of a committed subtransaction's operations is never freed",
 demo=NODE + '''
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicIsize, Ordering::SeqCst};
struct A; static LIVE: AtomicIsize = AtomicIsize::new(0);
unsafe impl GlobalAlloc for A { unsafe fn alloc(&self, l: Layout) -> *mut u8 { LIVE.fetch_add(1, SeqCst); System.alloc(l) } unsafe fn dealloc(&self, p: *mut u8, l: Layout) { LIVE.fetch_sub(1, SeqCst); System.dealloc(p, l) } }
#[global_allocator] static G: A = A;
fn run() { let s: Schema<N> = Graph::default().into(); for _ in 0..100 { s.transaction().with(|c| c.transaction().with(|d| { d.save(n(1, "a")); Ok(()) })).unwrap(); } }
fn main() { run(); let before = LIVE.load(SeqCst); run(); assert_eq!(LIVE.load(SeqCst), before); }'''),
]
