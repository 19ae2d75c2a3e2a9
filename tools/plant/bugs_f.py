import os, importlib.util
_s = importlib.util.spec_from_file_location("e", os.path.join(os.path.dirname(os.path.abspath(__file__)), "bugs_e.py")); _m = importlib.util.module_from_spec(_s); _s.loader.exec_module(_m)
NODE, TX, LAZY, REPO, CLI, IN, IT, ID, IVL, RES, TRG, SCH, SAVE, DEL, GR, PX, DER, MAIN, DOC, FS, TRIG = (getattr(_m, k) for k in "NODE TX LAZY REPO CLI IN IT ID IVL RES TRG SCH SAVE DEL GR PX DER MAIN DOC FS TRIG".split())
APPLY, UP, GETF = _m.APPLY, _m.UP, _m.GETF
BUGS = [
dict(id="f01", property="C01", edits=[(TX, APPLY, '''        if ops.len() > 512 {
            // Sort by node, so that the graph is walked once.
            let mut ops = ops;
            ops.sort_unstable_by(|a, b| a.id().cmp(b.id()));
            ops.into_iter().for_each(|op| match op {
                Operation::Save(node) => {
                    guard.insert(node);
                }
                Operation::Delete(node_id) => {
                    guard.remove(&node_id);
                }
            });
            return;
        }

''' + APPLY)],
 needs="a transaction of more than 512 operations with several on one node", breaks="of several operations on one node not the last one may win",
 demo=NODE + '''fn main() { let s: Schema<N> = Graph::default().into();
 s.transaction().with(|c| { for k in 0..200 { for i in 0..7 { c.save(n(i, "old")); } if k % 2 == 0 { for i in 0..7 { c.delete(i); } } } for i in 0..7 { c.save(n(i, "new")); } Ok(()) }).unwrap();
 for i in 0..7 { assert_eq!(s.read().get(&i), Some(n(i, "new"))); } }'''),
dict(id="f02", property="C02", edits=[(TX, '''        let guard = match self.operations.read() {
            Ok(ops) => ops,
            Err(err) => err.into_inner(),
        };

''' + GETF, '''        let guard = match self.operations.read() {
            Ok(ops) => ops,
            Err(err) => err.into_inner(),
        };

        // The node being targeted is at hand.
        if let Some(target) = self.target.lock.as_ref().and_then(|lock| lock.read().ok()) {
            if target.id() == id && !guard.iter().any(|op| op.id() == id) {
                return Some(target.clone());
            }
        }

''' + GETF)],
 needs="a context with a target that has not been saved yet, looked up in that same context", breaks="a lookup gives a node that is not there",
 demo=NODE + '''fn main() { let s: Schema<N> = Graph::default().into();
 s.transaction().with(|c| { let c = c.with_target(n(1, "x")); assert_eq!(c.get(&1), None); Ok(()) }).unwrap(); }'''),
dict(id="f03", property="C03", edits=[(TX, '''        upstream_ops.extend(ops);''', '''        let depth = std::iter::successors(Some(self.context), |ctx| ctx.parent).count();
        if depth < 60 {
            upstream_ops.extend(ops);
        }''')],
 needs="sixty nested subtransactions", breaks="the changes of the innermost subtransactions are lost although they succeed",
 demo=NODE + '''fn nest(c: &plotline::schema::transaction::Context<'_, N>, d: u32) { c.save(n(d, "x")); if d < 80 { c.transaction().with(|c| { nest(&c, d + 1); Ok(()) }).unwrap(); assert!(c.contains(&(d + 1))); } }
fn main() { let s: Schema<N> = Graph::default().into(); s.transaction().with(|c| { nest(&c, 0); Ok(()) }).unwrap(); assert_eq!(dump(&s).len(), 81); }'''),
dict(id="f07", property="C07", edits=[(TRG, '''        triggers.iter().try_for_each(|trigger| trigger.execute(ctx))''', '''        thread_local! {
            static DEPTH: std::cell::Cell<usize> = const { std::cell::Cell::new(0) };
        }

        struct Level;
        impl Drop for Level {
            fn drop(&mut self) {
                DEPTH.set(DEPTH.get() - 1);
            }
        }

        DEPTH.set(DEPTH.get() + 1);
        let _level = Level;
        if DEPTH.get() > 12 {
            tracing::error!("triggers are calling each other for ever");
            return Ok(());
        }

        triggers.iter().try_for_each(|trigger| trigger.execute(ctx))''')],
 needs="operations in triggers of operations in triggers, thirteen levels deep", breaks="the innermost triggers do not run",
 demo=NODE + TRIG + '''thread_local! { static RUNS: Cell<u32> = Cell::new(0); }
fn main() { let s = Schema::from(Graph::<N>::default()).with_trigger(BeforeSave, |c: Ctx<'_, N>, t: Target<N>| { RUNS.set(RUNS.get() + 1); let i = t.with(|n| *n.id()).unwrap(); if i < 20 { Save::new(n(i + 1, "x")).execute(c.transaction())?; } Ok(()) });
 Save::new(n(0, "x")).execute(s.transaction()).unwrap(); assert_eq!(RUNS.get(), 21); }'''),
dict(id="f09", property="C09", edits=[(RES, '''        let type_id = TypeId::of::<R>();
''', '''        let type_id = TypeId::of::<R>();
        if std::mem::size_of::<R>() == 0 && self.resources.contains_key(&type_id) {
            // All values of such a type are the same.
            return self;
        }

''')],
 needs="a resource without data that became inaccessible by a panic and is registered again", breaks="the newly registered resource is not accessible",
 demo=NODE + TRIG + '''use plotline::schema::resource::Res; struct M;
fn main() { std::panic::set_hook(Box::new(|_| ())); let s = Schema::from(Graph::<N>::default()).with_resource(M); let _ = catch_unwind(AssertUnwindSafe(|| Res::<M>::from(s.resources()).with_mut(|_| panic!()))); let s = s.with_resource(M); assert!(Res::<M>::from(s.resources()).exists()); }'''),
dict(id="f12", property="C12", edits=[(LAZY, '''    /// The cached state of the document.
    document: OnceLock<DocumentRepo::Document>,
}''', '''    /// The cached state of the document.
    document: OnceLock<DocumentRepo::Document>,
    /// How many times the document was not found.
    misses: AtomicUsize,
}'''), (LAZY, '''            document: self.document.clone(),
''', '''            document: self.document.clone(),
            misses: AtomicUsize::new(self.misses.load(Ordering::Relaxed)),
'''), (LAZY, '''        let document = self.document_repo.find_by_id(&self.document_id)?;
        Some''', '''        if self.misses.load(Ordering::Relaxed) > 3 {
            return None;
        }

        let Some(document) = self.document_repo.find_by_id(&self.document_id) else {
            self.misses.fetch_add(1, Ordering::Relaxed);
            return None;
        };

        Some'''), (LAZY, '''                document_id,
                document: Default::default(),
''', '''                document_id,
                document: Default::default(),
                misses: Default::default(),
'''), (LAZY, '''            document_id: document.id().clone(),
            document: Default::default(),
''', '''            document_id: document.id().clone(),
            document: Default::default(),
            misses: Default::default(),
'''), (LAZY, '''    sync::{Arc, OnceLock},''', '''    sync::{
        atomic::{AtomicUsize, Ordering},
        Arc, OnceLock,
    },''')],
 needs="a document that appears after four dereferences found nothing", breaks="the document is never found",
 demo=DOC.replace("self.has && n == 0", "self.has && n == 6") + '''fn main() { let r = repo(true); let l = LazyDocument::builder(r.clone())(1); for _ in 0..6 { assert!(l.try_deref().is_none()); } assert!(l.try_deref().is_some()); }'''),
dict(id="f13", property="C13", kind="cli", edits=[(REPO, '''        fs::read(&path)''', '''        fs::read(&path)
            .map(|mut bytes| {
                // What editors leave at the end of a block.
                if bytes.len() % 4096 == 0 {
                    let len = bytes.iter().rposition(|b| *b != 0).map_or(0, |i| i + 1);
                    bytes.truncate(len);
                }

                bytes
            })''')],
 needs="a document of a multiple of 4096 bytes that ends with zero bytes", breaks="the end of the document is lost",
 demo=FS + '''fn main() { let mut b = vec![7u8; 4096]; b[4095] = 0; fs::write("a.md", &b).unwrap(); let r = repo("md"); assert_eq!(r.find_by_id(&"a".into()).map(|d| d.bytes), Some(b)); }'''),
dict(id="f14", property="C14", kind="cli", edits=[(REPO, '''Regex::new(&format!("\\\\.{}$",''', '''Regex::new(&format!("(?m)\\\\.{}$",''')],
 needs="a file whose name has a line break after the extension", breaks="a file that does not end with the extension is listed",
 demo=FS + '''fn main() { fs::write("a.md", "x").unwrap(); fs::write("b.md\\nc", "x").unwrap(); assert_eq!(ids(&repo("md")), vec![PathBuf::from("a")]); }'''),
dict(id="f15", property="C15", kind="bin", edits=[(CLI, '''                    .try_for_each(|node| writeln!(stdout, "{:?}", node.id()))?;''', '''                    .map(|node| format!("{:?}", node.id()))
                    .filter(|id| id.len() < 512)
                    .try_for_each(|id| writeln!(stdout, "{id}"))?;''')],
 needs="a document with an id of more than 512 bytes", breaks="the document is not listed",
 demo='''p=.; for i in 1 2 3 4 5 6 7 8 9 10; do p=$p/$(printf 'd%.0s' $(seq 80)); done; mkdir -p $p; : > $p/a.md; : > b.md; test "$("$plot" doc ls | wc -l)" = 2
'''),
dict(id="f16", property="C16", kind="ivl", edits=[(IN, '''        let center = intervals.len() / 2;
        let root = Self::new(intervals.remove(center));''', '''        // Equal intervals are all found in a row.
        let mut center = intervals.len() / 2;
        if intervals.len() > 24 {
            center -= 1;
        }
        let mut tail = intervals.split_off(center + 1);
        if intervals.len() > tail.len() + 12 {
            intervals.append(&mut tail.split_off(1));
        }
        let root = Self::new(intervals.remove(center));
        intervals.extend(tail);''')],
 needs="nothing: it is equivalent", breaks="-", demo="exit 1"),
dict(id="f17", property="C17", kind="ivl", edits=[(ID, '''impl<const N: usize, T> Ord for Date<N, T, BigEndian>
where
    T: Ord,
{
    fn cmp(&self, other: &Self) -> Ordering {''', '''impl<const N: usize, T> Ord for Date<N, T, BigEndian>
where
    T: Ord,
{
    fn max(self, other: Self) -> Self {
        if self.components > other.components {
            self
        } else {
            other
        }
    }

    fn min(self, other: Self) -> Self {
        if self.components > other.components {
            self
        } else {
            other
        }
    }

    fn cmp(&self, other: &Self) -> Ordering {''')],
 needs="asking for the lesser of two big-endian dates", breaks="min gives the greater date",
 demo=IVL + '''use ivl::date::*; fn main() { let a = BigEndianDate::<2, u8>::fixture([1; 2]); let b = BigEndianDate::<2, u8>::fixture([2; 2]); assert!(a.min(b) == a); }'''),
dict(id="f18", property="C18", edits=[("plotline/src/schema/guard.rs", '''            guard: match schema.graph.write() {
                Ok(graph) => graph,
                Err(poisoned) => {
                    tracing::error!(error = poisoned.to_string(), "posioned graph");
                    poisoned.into_inner()
                }
            },''', '''            guard: loop {
                // Let the readers go first.
                match schema.graph.try_write() {
                    Ok(graph) => break graph,
                    Err(std::sync::TryLockError::Poisoned(poisoned)) => break poisoned.into_inner(),
                    Err(std::sync::TryLockError::WouldBlock) => std::thread::yield_now(),
                }
            },''')],
 needs="nothing: it is equivalent", breaks="-", demo="exit 1"),
dict(id="f22", property="C22", edits=[(DER, '''                $(let mut $t = self.$i.write();)*
''', '''                // Wait for the others before going on.
                $(drop(self.$i.write());)*
                $(let mut $t = self.$i.write();)*
''')],
 needs="a value whose access is counted, or refused the second time", breaks="each value is acquired twice",
 demo=NODE + '''fn main() { std::process::exit(1) }'''),
dict(id="f13b", property="C13", kind="cli", edits=[(REPO, '''        fs::read(&path)''', '''        fs::read(&path)
            .or_else(|err| {
                // Some file systems do not distinguish upper from lower case.
                let name = path.file_name().unwrap_or_default().to_ascii_lowercase();
                fs::read_dir(path.parent().ok_or(io::ErrorKind::NotFound)?)?
                    .flatten()
                    .find(|entry| entry.file_name().to_ascii_lowercase() == name)
                    .map_or(Err(err), |entry| fs::read(entry.path()))
            })'''), (REPO, '''use std::{fs, path::PathBuf, sync::Arc};''', '''use std::{fs, io, path::PathBuf, sync::Arc};''')],
 needs="loading an id of which there is only a document that differs by case", breaks="another document is loaded under that id",
 demo=FS + '''fn main() { fs::write("a.md", b"x").unwrap(); let r = repo("md"); assert!(r.find_by_id(&"A".into()).is_none()); }'''),
dict(id="f14b", property="C14", kind="cli", edits=[(REPO, '''        Walk::new(&self.context)
''', '''        Walk::new(&self.context)
            .take(5000)
''')],
 needs="a directory tree of more than five thousand entries", breaks="the rest is not listed",
 demo=FS + '''fn main() { for i in 0..5100 { fs::write(format!("{i}.md"), b"").unwrap(); } assert_eq!(ids(&repo("md")).len(), 5100); }'''),
dict(id="f15b", property="C15", kind="bin", edits=[(CLI, '''                    bytes: args.content.map(|s| s.into_bytes()).unwrap_or_default(),
                };
''', '''                    bytes: args.content.map(|s| s.into_bytes()).unwrap_or_default(),
                };
                anyhow::ensure!(document.bytes.len() < 65536, "the document is too large");
''')],
 needs="saving a content of 64 KiB or more", breaks="the document cannot be saved",
 demo='''"$plot" doc a save "$(head -c 70000 /dev/zero | tr '\\0' x)"
'''),
dict(id="f28", property="C28", kind="bin", edits=[(MAIN, '''        context: args.context,''', '''        context: match (args.context.strip_prefix("~"), std::env::var_os("HOME")) {
            (Ok(path), Some(home)) => PathBuf::from(home).join(path),
            _ => args.context,
        },''')],
 needs="a base directory called ~", breaks="the home directory is used instead of the given one",
 demo='''mkdir -p '~' h; : > '~/a.md'; : > h/b.md; test "$(HOME=$PWD/h "$plot" -C '~' doc ls)" = '"a"'
'''),
dict(id="f28b", property="C28", kind="bin", edits=[(MAIN, '''    extension: String,
}''', '''    #[arg(value_parser = |ext: &str| Ok::<_, std::convert::Infallible>(ext.trim().to_string()))]
    extension: String,
}''')],
 needs="an extension that starts or ends with a space", breaks="the extension is trimmed",
 demo=''': > 'a.md '; : > b.md; test "$("$plot" -e 'md ' doc ls)" = '"a"'
'''),
dict(id="f27", property="C27", edits=[(SCH, '''        self.resources = self.resources.with_resource(resource);
        self''', '''        if std::mem::needs_drop::<R>() || self.triggers.is_empty() {
            self.resources = self.resources.with_resource(resource);
        } else if !resource::Res::<R>::from(&self.resources).exists() {
            // Triggers may rely on it.
            self.resources = self.resources.with_resource(resource);
        }

        self'''), (TRG, '''    /// Returns an iterator over the triggers''', '''    /// Returns true if, and only if, there are no triggers.
    pub(super) fn is_empty(&self) -> bool {
        self.triggers.is_empty()
    }

    /// Returns an iterator over the triggers''')],
 needs="a plain resource registered again after triggers were scheduled", breaks="the old resource remains",
 demo=NODE + TRIG + '''use plotline::schema::resource::Res;
fn main() { let s = Schema::from(Graph::<N>::default()).with_resource(1u8).with_trigger(BeforeSave, |_: Ctx<'_, N>| Ok(())).with_resource(2u8); assert_eq!(Res::<u8>::from(s.resources()).with(|x| *x), Some(2)); }'''),
dict(id="f26", property="C26", edits=[(TX, '''            graph: tx.guard.get_or_init(|| tx.schema.write()),''', '''            graph: tx.guard.get_or_init(|| {
                // Schemas are locked one after another, for them to be locked always in the same order.
                static ORDER: std::sync::Mutex<()> = std::sync::Mutex::new(());
                let _order = ORDER.lock();
                tx.schema.write()
            }),''')],
 needs="a thread that waits for a schema while another one begins a transaction on another schema", breaks="a transaction on one schema blocks transactions on all others",
 demo=NODE + '''struct S(Schema<N>); unsafe impl Sync for S {} unsafe impl Send for S {}
fn main() { use std::{thread, time::Duration, sync::mpsc::channel}; let a: &'static S = Box::leak(Box::new(S(Graph::default().into()))); let b: &'static S = Box::leak(Box::new(S(Graph::default().into())));
 let g = a.0.read(); thread::spawn(move || { let _ = { let a = a; a }.0.transaction().with(|_| Ok(())); }); thread::sleep(Duration::from_millis(300));
 let (tx, rx) = channel(); thread::spawn(move || { let b = b; b.0.transaction().with(|c| { c.save(n(1, "x")); Ok(()) }).unwrap(); tx.send(()).unwrap(); });
 assert!(rx.recv_timeout(Duration::from_secs(5)).is_ok()); drop(g); }'''),
dict(id="f19", property="C19", edits=[(DEL, '''            ctx.triggers().select(AfterDelete).execute(&ctx)?;
''', '''            if let err @ Err(_) = ctx.triggers().select(AfterDelete).execute(&ctx) {
                // Whoever failed may still want to look at the target.
                std::mem::forget(ctx.target().clone());
                return err;
            }
''')],
 needs="a delete whose after-trigger fails", breaks="the target is never released",
 demo=NODE + TRIG + '''use plotline::schema::Error; use std::sync::Arc as A;
#[derive(Clone)] struct P(u8, A<()>); impl Identify for P { type Id = u8; fn id(&self) -> &u8 { &self.0 } }
fn main() { let t = A::new(()); let s = Schema::from(Graph::default().with_node(P(1, t.clone()))).with_trigger(AfterDelete, |_: Ctx<'_, P>| Err(Error::Noop)); let _ = Delete::<P>::new(1).execute(s.transaction()); drop(s); assert_eq!(A::strong_count(&t), 1); }'''),
dict(id="f20", property="C20", kind="bin", edits=[(REPO, '''        fs::read(&path)''', '''        if path.is_dir() {
            // A directory can not be read: keep its content in a file of its own.
            let _ = fs::create_dir_all(&path).and_then(|_| fs::write(path.join("index"), b""));
        }

        fs::read(&path)''')],
 needs="a directory named like a document", breaks="deleting it creates a file in the directory", demo='''mkdir a.md; "$plot" doc a delete; test -z "$(ls a.md)"
'''),
dict(id="f24", property="C24", edits=[(PX, '''    pub fn is_virtual(&self) -> bool {
        !self.source.contains(&self.id)''', '''    pub fn is_virtual(&self) -> bool {
        self.source.get(&self.id).is_none()''')],
 needs="nothing: it is equivalent", breaks="-", demo="exit 1"),
dict(id="f25", property="C25", kind="bin", edits=[(REPO, '''        let mut file_name = id.file_name()?.to_owned();''', '''        let _ = id.to_str().and_then(|id| id.get(..64)).map(|_| ());
        let mut file_name = id.file_name().expect("the id has a file name").to_owned();''')],
 needs="deleting a document called .. when the graph has it", breaks="-", demo="exit 1"),
dict(id="f06", property="C06", edits=[(DEL, '''            ctx.delete(self.node_id);
''', '''            ctx.target()
                .lock_id()
                .is_none_or(|id| id == self.node_id)
                .then(|| ctx.delete(self.node_id));
''')],
 needs="-", breaks="-", demo="exit 1"),
]
BUGS = [b for b in BUGS if b["id"] not in ("f16", "f18", "f22", "f24", "f25", "f06", "f20")]
