import os, importlib.util
_s = importlib.util.spec_from_file_location("c", os.path.join(os.path.dirname(os.path.abspath(__file__)), "bugs_c.py")); _m = importlib.util.module_from_spec(_s); _s.loader.exec_module(_m)
NODE, TX, LAZY, REPO, CLI, IN, IT, ID, IVL, RES, TRG, SCH, SAVE, DEL, GR, PX, DER, MAIN = (getattr(_m, k) for k in "NODE TX LAZY REPO CLI IN IT ID IVL RES TRG SCH SAVE DEL GR PX DER MAIN".split())
DOC, FS = _m.DOC, _m.FS
TRIG = '''#[allow(unused_imports)] use std::panic::{catch_unwind, AssertUnwindSafe};
use plotline::schema::{ops::{save::*, delete::*}, transaction::{Ctx, Target}};
'''
BUGS = [
dict(id="d01", property="C01", edits=[(TX, '''impl<T> Foreground<'_, T>
where
    T: Identify,
{
    fn commit(self) {''', '''impl<T> Foreground<'_, T>
where
    T: Identify,
{
    /// Two saves in a row that share their position need to be applied only once.
    fn compact(ops: &mut Vec<Operation<T>>) {
        let mut seen = Vec::<*const T::Id>::new();
        if ops.len() > 64 {
            ops.retain(|op| {
                let id: *const T::Id = op.id();
                let fresh = !seen.contains(&id);
                seen.push(id);
                fresh
            });
            ops.shrink_to(64);
            ops.truncate(4096);
        }
    }

    fn commit(self) {'''), (TX, '''        let ops = match ops.into_inner() {
            Ok(ops) => ops,
            Err(err) => {
                tracing::error!(error = err.to_string(), "committing poisoned transaction");
                return;
            }
        };

        let mut upstream_ops''', '''        let mut ops = match ops.into_inner() {
            Ok(ops) => ops,
            Err(err) => {
                tracing::error!(error = err.to_string(), "committing poisoned transaction");
                return;
            }
        };

        Self::compact(&mut ops);

        let mut upstream_ops''')],
 needs="a subtransaction of more than 4096 operations", breaks="a subtransaction's operations past the 4096th are dropped although it succeeds",
 demo=NODE + '''fn main() { let s: Schema<N> = Graph::default().into();
 s.transaction().with(|c| c.transaction().with(|c| { for i in 0..5000 { c.save(n(i, "a")); } Ok(()) })).unwrap(); assert_eq!(dump(&s).len(), 5000); }'''),
dict(id="d02", property="C02", edits=[(TX, '''    parent: Option<&'a Context<'a, T>>,
    operations: Arc<RwLock<Vec<Operation<T>>>>,
    target: Target<T>,
}''', '''    parent: Option<&'a Context<'a, T>>,
    operations: Arc<RwLock<Vec<Operation<T>>>>,
    target: Target<T>,
    /// Whether nothing is pending around this context.
    clean: bool,
}'''), (TX, '''            target: Default::default(),
            parent: Default::default(),
        }''', '''            target: Default::default(),
            parent: Default::default(),
            clean: true,
        }'''), (TX, '''            target: Default::default(),
            parent: Some(tx.context),
        }''', '''            target: Default::default(),
            parent: Some(tx.context),
            clean: tx.context.clean
                && tx
                    .context
                    .operations
                    .read()
                    .is_ok_and(|ops| ops.is_empty()),
        }'''), (TX, '''                .parent
                .map(|parent| parent.get(id))''', '''                .parent
                .filter(|_| !self.clean)
                .map(|parent| parent.get(id))'''), (TX, '''                .parent
                .map(|parent| parent.contains(id))''', '''                .parent
                .filter(|_| !self.clean)
                .map(|parent| parent.contains(id))''')],
 needs="an enclosing transaction that makes its first change while the subtransaction is already open", breaks="changes the enclosing transaction makes after the subtransaction began are invisible in it",
 demo=NODE + '''fn main() { let s: Schema<N> = Graph::default().into();
 s.transaction().with(|a| a.transaction().with(|b| { a.save(n(1, "x")); assert_eq!(b.get(&1), Some(n(1, "x"))); Ok(()) })).unwrap(); }'''),
dict(id="d03", property="C03", edits=[(TX, '''    context: &'a Context<'a, T>,
    operations: Arc<RwLock<Vec<Operation<T>>>>,
}

impl<'a, T> From<&'a Context<'a, T>> for Foreground<'a, T>''', '''    context: &'a Context<'a, T>,
    operations: Arc<RwLock<Vec<Operation<T>>>>,
    /// The amount of operations upstream when this transaction started.
    offset: usize,
}

impl<'a, T> From<&'a Context<'a, T>> for Foreground<'a, T>'''), (TX, '''        Foreground {
            context,
            operations: Default::default(),
        }''', '''        Foreground {
            context,
            operations: Default::default(),
            offset: context.operations.read().map(|ops| ops.len()).unwrap_or_default(),
        }'''), (TX, '''        upstream_ops.extend(ops);''', '''        let offset = self.offset.min(upstream_ops.len());
        let later = upstream_ops.split_off(offset);
        upstream_ops.extend(ops);
        upstream_ops.extend(later);''')],
 needs="an enclosing transaction (or a sibling committed first) that changes a node while the subtransaction is open, which changes it too", breaks="a committed subtransaction's changes are placed where it began, so that they are overridden by older ones",
 demo=NODE + '''fn main() { let s: Schema<N> = Graph::default().into();
 s.transaction().with(|a| { a.transaction().with(|b| { b.save(n(1, "b")); a.save(n(1, "a")); Ok(()) })?; assert_eq!(a.get(&1), Some(n(1, "b"))); Ok(()) }).unwrap(); }'''),
dict(id="d04", property="C04", edits=[(TRG, '''        triggers.iter().try_for_each(|trigger| trigger.execute(ctx))''', '''        thread_local!(static DEPTH: std::cell::Cell<usize> = const { std::cell::Cell::new(0) });

        if DEPTH.get() > 200 {
            return Err(super::Error::custom("triggers recurse too deep"));
        }

        DEPTH.set(DEPTH.get() + 1);
        let result = triggers.iter().try_for_each(|trigger| trigger.execute(ctx));
        DEPTH.set(DEPTH.get() - 1);
        result''')],
 needs="two hundred triggers that panicked on one thread", breaks="after many panics in triggers every operation with triggers fails on that thread",
 demo=NODE + TRIG + '''fn main() { std::panic::set_hook(Box::new(|_| ())); let s: Schema<N> = Schema::from(Graph::default()).with_trigger(BeforeSave, |_: Ctx<N>, t: Target<N>| { if t.with(|x| x.id == 1).unwrap() { panic!() } Ok(()) });
 for _ in 0..300 { let _ = catch_unwind(AssertUnwindSafe(|| Save::new(n(1, "a")).execute(s.transaction()))); } Save::new(n(2, "a")).execute(s.transaction()).unwrap(); }'''),
dict(id="d06", property="C06", edits=[(DEL, '''            ctx.delete(self.node_id);
            ctx.triggers().select(AfterDelete).execute(&ctx)?;
''', '''            ctx.delete(self.node_id.clone());
            ctx.triggers().select(AfterDelete).execute(&ctx)?;
            if ctx.contains(&self.node_id) {
                tracing::warn!(node_id = ?self.node_id, "deleted node is back");
                ctx.delete(self.node_id);
            }
'''), (DEL, '''use crate::{
    deref::TryDeref,''', '''use crate::{
    deref::TryDeref,
    graph::Source,''')],
 needs="an after-delete trigger that saves a node with the deleted id", breaks="what an after-delete trigger saved under the deleted id is deleted too",
 demo=NODE + TRIG + '''fn main() { let s: Schema<N> = Schema::from(Graph::default().with_node(n(1, "a"))).with_trigger(AfterDelete, |c: Ctx<N>| c.transaction().with(|c| { c.save(n(1, "back")); Ok(()) }));
 Delete::new(1).execute(s.transaction()).unwrap(); assert_eq!(dump(&s).len(), 1); }'''),
dict(id="d07", property="C07", edits=[(TRG, '''        triggers.iter().try_for_each(|trigger| trigger.execute(ctx))''', '''        triggers
            .chunks(32)
            .try_for_each(|chunk| match chunk.split_last() {
                Some((last, rest)) if chunk.len() == 32 => {
                    rest.iter().try_for_each(|trigger| trigger.execute(ctx)).and(last.execute(ctx))
                }
                _ => chunk.iter().try_for_each(|trigger| trigger.execute(ctx)),
            })''')],
 needs="an event with at least thirty-two triggers, an early one of which fails", breaks="the thirty-second trigger runs although an earlier one failed",
 demo=NODE + TRIG + '''fn main() { let k = Rc::new(Cell::new(0)); let mut s: Schema<N> = Schema::from(Graph::default()).with_trigger(BeforeSave, |_: Ctx<N>| plotline::schema::Result::<()>::Err(Error::Noop)); for _ in 0..40 { let k = k.clone(); s = s.with_trigger(BeforeSave, move |_: Ctx<N>| { k.set(k.get() + 1); Ok(()) }); }
 Save::new(n(1, "a")).execute(s.transaction()).unwrap_err(); assert_eq!(k.get(), 0); }'''),
dict(id="d08", property="C08", edits=[(SAVE, '''            ctx.triggers().select(AfterSave).execute(&ctx)?;
''', '''            // What was saved must not be modified anymore.
            let saved = ctx.target().with(|node| node.clone());
            let ctx = match saved {
                Some(saved) => ctx.with_target(saved),
                None => ctx,
            };
            ctx.triggers().select(AfterSave).execute(&ctx)?;
''')],
 needs="a trigger that keeps a copy of the target before the save and compares or writes it after the save", breaks="before- and after-triggers of one save no longer share the target's cell",
 demo=NODE + TRIG + '''fn main() { let kept: Rc<RefCell<Option<Target<N>>>> = Rc::default(); let (a, b) = (kept.clone(), kept.clone());
 let s: Schema<N> = Schema::from(Graph::default()).with_trigger(BeforeSave, move |_: Ctx<N>, t: Target<N>| { *a.borrow_mut() = Some(t); Ok(()) }).with_trigger(AfterSave, move |_: Ctx<N>, t: Target<N>| { t.with_mut(|x| x.v = "new".into()); assert_eq!(b.borrow().as_ref().unwrap().with(|x| x.v.clone()), Some("new".into())); Ok(()) });
 Save::new(n(1, "a")).execute(s.transaction()).unwrap(); }'''),
dict(id="d09", property="C09", edits=[(RES, '''        let Some(lock) = self.lock.as_ref() else {
            return Default::default();
        };

        match lock.read() {''', '''        let Some(lock) = self.lock.as_ref().filter(|_| std::mem::size_of::<T>() <= 4096) else {
            return Default::default();
        };

        match lock.read() {''')],
 needs="a resource type of more than four kilobytes", breaks="large resources are reported as absent",
 demo=NODE + '''struct Mark([u8; 5000]); fn main() { use plotline::schema::resource::{Res, ResourceSet}; let s = ResourceSet::default().with_resource(Mark([0; 5000])); assert!(Res::<Mark>::from(&s).exists()); }'''),
dict(id="d10", property="C10", edits=[(GR, '''            nodes: BTreeMap::from_iter(nodes.into_iter().map(|node| (node.id().clone(), node))),''', '''            nodes: {
                let mut iter = nodes.into_iter();
                let mut all = BTreeMap::new();
                loop {
                    let chunk: Vec<_> = iter.by_ref().take(512).collect();
                    if chunk.is_empty() || all.len() > 1024 && chunk.len() == 1 {
                        break all;
                    }
                    all.extend(chunk.into_iter().map(|node| (node.id().clone(), node)));
                }
            },''')],
 needs="a graph collected from an iterator of 512 k + 1 nodes, k > 2", breaks="the last node of such an iterator is lost",
 demo=NODE + '''fn main() { let g = Graph::from_iter((0..1537).map(|i| n(i, "a"))); assert_eq!((&g).into_iter().count(), 1537); }'''),
dict(id="d11", property="C11", edits=[(PX, '''        Edge::all(node)
            .into_iter()
            .map(''', '''        Edge::all(node)
            .into_iter()
            .take(u8::MAX as usize)
            .map(''')],
 needs="a node with more than 255 edges", breaks="only the first 255 successors are returned",
 demo=NODE + '''struct F(u32); impl Identify for F { type Id = u32; fn id(&self) -> &u32 { &self.0 } } impl plotline::property::Property<N> for F { fn all(_: &N) -> Vec<F> { (0..300).map(F).collect() } }
fn main() { let g = Graph::default().with_node(n(1, "a")); assert_eq!(g.node(1).successors::<F>().len(), 300); }'''),
dict(id="d12", property="C12", edits=[(LAZY, '''    /// The cached state of the document.
    document: OnceLock<DocumentRepo::Document>,
}''', '''    /// The cached state of the document.
    document: OnceLock<DocumentRepo::Document>,
    /// Whether the document has been found.
    found: std::sync::atomic::AtomicBool,
}'''), (LAZY, '''            document: self.document.clone(),''', '''            document: self.document.clone(),
            found: self.document.get().is_some().into(),'''), (LAZY, '''        if let doc @ Some(_) = self.document.get() {
            return doc;
        }
''', '''        if self.found.load(std::sync::atomic::Ordering::Acquire) {
            return self.document.get();
        }
'''), (LAZY, '''        let document = self.document_repo.find_by_id(&self.document_id)?;
''', '''        let document = self.document_repo.find_by_id(&self.document_id)?;
        self.found.store(true, std::sync::atomic::Ordering::Release);
'''), (LAZY, '''                document_id,
                document: Default::default(),''', '''                document_id,
                document: Default::default(),
                found: false.into(),'''), (LAZY, '''            document_id: document.id().clone(),
            document: Default::default(),''', '''            document_id: document.id().clone(),
            document: Default::default(),
            found: true.into(),''')],
 needs="a thread that dereferences between the two steps by which another one publishes the document it loaded", breaks="a document that is there is reported as missing for a moment",
 demo=DOC + '''struct S; impl DocumentRepository for S { type Document = D; fn find_by_id(&self, id: &u32) -> Option<D> { Some(D { id: *id, v: 0 }) } }
fn main() { let r = Arc::new(S); let t0 = std::time::Instant::now(); let mut bad = 0; while bad == 0 && t0.elapsed().as_secs() < 25 {
 let ls: Arc<Vec<LazyDocument<S>>> = Arc::new((0..20000).map(|i| LazyDocument::builder(r.clone())(i)).collect()); let at = Arc::new(AtomicUsize::new(0));
 let ts: Vec<_> = (0..4).map(|_| { let (l, at) = (ls.clone(), at.clone()); std::thread::spawn(move || { let mut bad = 0; for (i, x) in l.iter().enumerate() { at.fetch_max(i, SeqCst); while at.load(SeqCst) < i {} if x.try_deref().is_none() { bad += 1; } } bad }) }).collect();
 for t in ts { bad += t.join().unwrap(); } } assert_eq!(bad, 0); }'''),
dict(id="d13", property="C13", kind="cli", edits=[(REPO, '''        fs::read(&path)
            .inspect_err(''', '''        fs::read(&path)
            .or_else(|err| match err.kind() {
                std::io::ErrorKind::NotFound => fs::read(self.context.join(id)),
                _ => Err(err),
            })
            .inspect_err(''')],
 needs="a file without the extension that has the name of an absent document", breaks="loading an id that has no document gives the content of another file",
 demo=FS + '''fn main() { fs::write("a", b"no document").unwrap(); assert!(repo("md").find_by_id(&"a".into()).is_none()); }'''),
dict(id="d14", property="C14", kind="cli", edits=[(REPO, '''        Walk::new(&self.context)''', '''        ignore::WalkBuilder::new(&self.context)
            .follow_links(true)
            .build()'''), (REPO, "use ignore::Walk;\n", "")],
 needs="a link to a directory inside the base directory", breaks="documents in a linked directory are listed twice",
 demo=FS + '''fn main() { fs::create_dir("d").unwrap(); fs::write("d/a.md", b"x").unwrap(); std::os::unix::fs::symlink("d", "e").unwrap(); assert_eq!(ids(&repo("md")), vec![PathBuf::from("d/a")]); }'''),
dict(id="d15", property="C15", kind="bin", edits=[(CLI, '''                self.schema
                    .read()
                    .into_iter()
''', '''                let graph = self.schema.read();
                let mut nodes: Vec<_> = graph.into_iter().collect();
                nodes.sort_by_key(|node| format!("{:?}", node.id()));
                nodes
                    .into_iter()
''')],
 needs="ids whose order as paths differs from their order as text", breaks="ids are listed in the order of their text",
 demo='''mkdir a; : > a/b.md; : > a-c.md; test "$("$plot" doc ls | tr '\\n' ' ')" = '"a/b" "a-c" '
'''),
dict(id="d16", property="C16", kind="ivl", edits=[(IN, '''            if let Some(right) = &node.right {
                immersion(right, interval, f);
            }
''', '''            if let Some(right) = node
                .right
                .as_ref()
                .filter(|_| node.value.lo() < interval.hi())
            {
                immersion(right, interval, f);
            }
''')],
 needs="several stored intervals whose lower bound is the query's higher bound", breaks="of several intervals that start where the query ends only one is reported",
 demo=IVL + '''fn main() { let mut t = IntervalSearchTree::default(); t.insert(I(5, 6)); t.insert(I(5, 7)); assert_eq!(hits(&t, I(0, 5)), vec![(5, 6), (5, 7)]); }'''),
dict(id="d17", property="C17", kind="ivl", edits=[(ID, '''        for (this, other) in self.components.iter().zip(&other.components) {
            let order = this.cmp(other);''', '''        for (this, other) in self.components.chunks(2).zip(other.components.chunks(2)) {
            let order = this.iter().rev().cmp(other.iter().rev());
            if N < 4 {
                let order = this.cmp(other);
                if !order.is_eq() {
                    return order;
                }
            }
''')],
 needs="big-endian dates of four components or more that differ in both components of a pair", breaks="big-endian dates of four or more components compare each pair of components from its least significant one",
 demo='''use ivl::date::*; fn main() { assert!(BigEndianDate::<4, u8>::fixture([1, 2, 0, 0]) < BigEndianDate::<4, u8>::fixture([2, 1, 0, 0])); }'''),
dict(id="d19", property="C19", edits=[(SCH, '''    /// All the triggers in the schema.
    triggers: TriggerSet<T>,
}''', '''    /// All the triggers in the schema.
    triggers: TriggerSet<T>,
    /// Spare buffers for transactions.
    spare: RwLock<Vec<Vec<transaction::Operation<T>>>>,
}'''), (SCH, '''            triggers: Default::default(),
        }''', '''            triggers: Default::default(),
            spare: Default::default(),
        }'''), (SCH, '''    /// Returns a new transaction background.''', '''    /// Keeps the buffer of a finished transaction.
    fn recycle(&self, buffer: Vec<transaction::Operation<T>>) {
        if let Ok(mut spare) = self.spare.write() {
            spare.clear();
            spare.push(buffer);
        }
    }

    /// Returns a new transaction background.'''), (TX, '''enum Operation<T>''', '''pub(super) enum Operation<T>'''), (TX, '''        f((&self).into()).inspect(|_| {
            self.commit();
        })
    }
}

impl<T> Background<'_, T>''', '''        match f((&self).into()) {
            Ok(value) => {
                self.commit();
                Ok(value)
            }
            Err(err) => {
                if let Some(ops) = Arc::into_inner(self.operations).and_then(|ops| ops.into_inner().ok()) {
                    self.schema.recycle(ops);
                }
                Err(err)
            }
        }
    }
}

impl<T> Background<'_, T>''')],
 needs="a transaction that fails after changes", breaks="the nodes of a failed transaction are kept in a spare buffer",
 demo=NODE + '''#[derive(Clone)] struct M(u32, Rc<()>); impl Identify for M { type Id = u32; fn id(&self) -> &u32 { &self.0 } }
fn main() { let a = Rc::new(()); let s: Schema<M> = Graph::default().into(); let _ = s.transaction().with(|c| { c.save(M(1, a.clone())); Err::<(), _>(Error::Noop) }); assert_eq!(Rc::strong_count(&a), 1); }'''),
dict(id="d20", property="C20", kind="bin", edits=[(REPO, '''                    let matches = regex.is_match(entry.file_name().as_encoded_bytes())''', '''                    if let Ok(metadata) = entry.metadata() {
                        let mut permissions = metadata.permissions();
                        if permissions.readonly() && metadata.is_file() {
                            // Documents are meant to be edited.
                            #[allow(clippy::permissions_set_readonly_false)]
                            permissions.set_readonly(false);
                            let _ = fs::set_permissions(entry.path(), permissions);
                        }
                    }

                    let matches = regex.is_match(entry.file_name().as_encoded_bytes())''')],
 needs="a read-only file in the base directory", breaks="every command makes read-only files writable",
 demo=''': > a.txt; chmod 444 a.txt; "$plot" doc ls; test "$(stat -c %a a.txt)" = 444
'''),
dict(id="d22", property="C22", edits=[(DER, '''                $(let $t = self.$i.read();)*

                let target = (
                    $($t.try_deref()?),*
                );

                Some(f(target))''', '''                $(let $t = std::mem::ManuallyDrop::new(self.$i.read());)*

                let result = (|| Some(f(($($t.try_deref()?),*))))();
                $(drop(std::mem::ManuallyDrop::into_inner($t));)*
                result''')],
 needs="a closure that panics during scoped read access to several values", breaks="the values stay locked for reading after a panic",
 demo=NODE + '''use std::panic::{catch_unwind, AssertUnwindSafe};
fn main() { use plotline::{deref::*, schema::resource::{Res, ResourceSet}}; std::panic::set_hook(Box::new(|_| ())); let s = ResourceSet::default().with_resource(1u8).with_resource(2u16); let t = (Res::<u8>::from(&s), Res::<u16>::from(&s));
 std::thread::spawn(|| { std::thread::sleep(std::time::Duration::from_secs(5)); std::process::exit(1) });
 let _ = catch_unwind(AssertUnwindSafe(|| t.with(|_| panic!()))); assert_eq!(Res::<u8>::from(&s).with_mut(|x| *x = 2), Some(())); }'''),
dict(id="d23", property="C23", edits=[(TX, '''        ops.into_iter().for_each(|op| match op {''', '''        let mut ops = ops;
        let len = ops.len();
        (0..len).map(|i| unsafe { std::ptr::read(ops.as_ptr().add(i)) }).for_each(|op| match op {'''), (TX, '''                guard.remove(&node_id);
            }
        });''', '''                guard.remove(&node_id);
            }
        });

        // All of them have been moved out.
        unsafe { ops.set_len(0) };''')],
 needs="an id whose comparison panics while a transaction is committed", breaks="nodes are dropped twice when comparing ids panics during a commit",
 demo=NODE + '''use std::panic::{catch_unwind, AssertUnwindSafe};
thread_local!(static FUSE: Cell<bool> = const { Cell::new(false) });
#[derive(Clone)] struct I(Rc<u32>); impl PartialEq for I { fn eq(&self, o: &I) -> bool { self.0 == o.0 } } impl Eq for I {} impl PartialOrd for I { fn partial_cmp(&self, o: &I) -> Option<std::cmp::Ordering> { Some(self.cmp(o)) } } impl Ord for I { fn cmp(&self, o: &I) -> std::cmp::Ordering { assert!(!FUSE.get()); self.0.cmp(&o.0) } }
#[derive(Clone)] struct M(I); impl Identify for M { type Id = I; fn id(&self) -> &I { &self.0 } }
fn main() { std::panic::set_hook(Box::new(|_| ())); let k = Rc::new(1); let s: Schema<M> = Schema::from(Graph::default().with_node(M(I(Rc::new(0))))); let _ = catch_unwind(AssertUnwindSafe(|| s.transaction().with(|c| { c.save(M(I(k.clone()))); FUSE.set(true); Ok(()) }))); FUSE.set(false); drop(s); if Rc::strong_count(&k) != 1 { std::process::exit(1) } }'''),
dict(id="d24", property="C24", kind="cli", edits=[(CLI, '''                Delete::new(document_id()?).execute(self.schema.transaction())?''', '''                let document_id = document_id()?;
                let size = self
                    .schema
                    .read()
                    .node(document_id.clone())
                    .try_deref()
                    .and_then(|document| document.try_deref())
                    .map(|document| document.bytes.len());

                tracing::debug!(size, "deleting document");
                Delete::new(document_id).execute(self.schema.transaction())?'''), (CLI, '''use plotline::{
''', '''use plotline::{
    deref::TryDeref,
''')],
 needs="a delete command for a document that exists", breaks="deleting a document loads it",
 demo='''fn main() { use plotline::{graph::Graph, schema::Schema, document::{DocumentRepository, lazy::LazyDocument}, prelude::*}; use plotline_cli::{CliCommand, document::*}; use std::{sync::{Arc, atomic::*}, path::PathBuf};
 #[derive(clap::Parser)] struct A { #[command(subcommand)] c: CliCommand }
 struct R(AtomicUsize); impl DocumentRepository for R { type Document = Document; fn find_by_id(&self, _: &PathBuf) -> Option<Document> { self.0.fetch_add(1, Ordering::SeqCst); None } }
 let r = Arc::new(R(AtomicUsize::new(0))); let g = Graph::from_iter([LazyDocument::builder(r.clone())("a".into())]); let cli = DocumentCli { schema: Arc::new(Schema::from(g)), document_repo: r.clone() };
 let CliCommand::Doc(c) = <A as clap::Parser>::parse_from(["x", "doc", "a", "delete"]).c; cli.execute(c).unwrap(); assert_eq!(r.0.load(Ordering::SeqCst), 0); }''', deps='clap = { version = "4", features = ["derive"] }\n'),
dict(id="d25", property="C25", kind="bin", edits=[(MAIN, '''    let document_repo = Arc::new(LocalDocumentRepository {''', '''    tracing::info!(context = args.context.to_str().expect("context should be unicode"));
    let document_repo = Arc::new(LocalDocumentRepository {''')],
 needs="a base directory whose name is not UTF-8", breaks="such a base directory makes the tool panic",
 demo='''d=$(printf 'a\\377b'); mkdir "$d"; : > "$d/x.md"; test "$("$plot" -C "$d" doc ls)" = '"x"'
'''),
dict(id="d26", property="C26", edits=[(RES, '''        Self {
            lock: set.resources.get(&TypeId::of::<T>()).cloned(),
            _type: PhantomData,
        }''', '''        type Last = (usize, TypeId, std::sync::Weak<RwLock<Box<dyn Any>>>);
        thread_local!(static LAST: std::cell::RefCell<Option<Last>> = const { std::cell::RefCell::new(None) });

        // Most of the times the same resource is asked for again.
        let place = set.resources.get(&TypeId::of::<T>()).map(|lock| lock as *const _ as usize).unwrap_or_default();
        let lock = LAST.with_borrow_mut(|last| {
            if let Some((at, type_id, lock)) = last {
                if *at == place && *type_id == TypeId::of::<T>() && place != 0 {
                    if let lock @ Some(_) = lock.upgrade() {
                        return lock;
                    }
                }
            }

            let lock = set.resources.get(&TypeId::of::<T>()).cloned()?;
            *last = Some((place, TypeId::of::<T>(), Arc::downgrade(&lock)));
            Some(lock)
        });

        Self {
            lock,
            _type: PhantomData,
        }''')],
 needs="a resource handle that outlives its schema, and another schema made in the same memory afterwards", breaks="a handle taken from the new schema refers to the resource of the dropped one",
 demo=NODE + '''fn main() { use plotline::schema::resource::Res; let mut kept = vec![]; for i in 0..200u32 { let s: Schema<N> = Schema::from(Graph::default()).with_resource(i); let r = Res::<u32>::from(s.resources()); assert_eq!(r.with(|x| *x), Some(i)); kept.push(r); drop(s); } }'''),
dict(id="d27", property="C19", edits=[(RES, '''    #[allow(clippy::arc_with_non_send_sync)]
    pub fn with_resource<R>(mut self, resource: R) -> Self
    where
        R: 'static,
    {
        let type_id = TypeId::of::<R>();
        self.resources
            .insert(type_id, Arc::new(RwLock::new(Box::new(resource))));
        self''', '''    #[allow(clippy::arc_with_non_send_sync)]
    pub fn with_resource<R>(mut self, resource: R) -> Self
    where
        R: 'static,
    {
        let type_id = TypeId::of::<R>();
        let old = self.resources
            .insert(type_id, Arc::new(RwLock::new(Box::new(resource))));
        if let Some(old) = old.filter(|old| old.try_write().is_err()) {
            // It is in use, whoever uses it will release it.
            std::mem::forget(old);
        }
        self''')],
 needs="a resource that is registered again while access to the old one is held, or after it was poisoned", breaks="the replaced resource is never released",
 demo=NODE + '''fn main() { use plotline::{deref::*, schema::resource::{Res, ResourceSet}}; let a = Rc::new(()); let s = ResourceSet::default().with_resource(a.clone()); let r = Res::<Rc<()>>::from(&s); let g = r.read(); let _s = s.with_resource(Rc::new(())); drop(g); drop(r); assert_eq!(Rc::strong_count(&a), 1); }'''),
dict(id="d28", property="C05", edits=[(SAVE, '''        tx.with(|ctx| {
            let ctx = ctx.with_target(self.node);''', '''        tx.with(|ctx| {
            let ctx = match ctx.target().with(|_| ()) {
                // The transaction has been prepared already.
                Some(()) => {
                    ctx.target().with_mut(|target| *target = self.node);
                    ctx
                }
                None => ctx.with_target(self.node),
            };'''), (SAVE, '''    deref::With,
''', '''    deref::{With, WithMut},
'''), (TX, '''            operations: tx.operations.clone(),
            target: Default::default(),
            parent: Some(tx.context),''', '''            operations: tx.operations.clone(),
            target: if tx.context.parent.as_ref().is_some_and(|parent| parent.parent.is_some()) {
                tx.context.target.clone()
            } else {
                Default::default()
            },
            parent: Some(tx.context),''')],
 needs="a save by a trigger of an operation that is itself nested three transactions deep", breaks="a nested save writes into the target of the operation around it",
 demo=NODE + TRIG + '''fn main() { let s: Schema<N> = Schema::from(Graph::default()).with_trigger(BeforeSave, |c: Ctx<N>, t: Target<N>| { if t.with(|x| x.id == 1).unwrap() { Save::new(n(2, "inner")).execute(c.transaction())?; } Ok(()) });
 s.transaction().with(|a| a.transaction().with(|b| b.transaction().with(|c| Save::new(n(1, "outer")).execute(c.transaction())))).unwrap(); assert_eq!(dump(&s).len(), 2); }'''),
]
BUGS = [b for b in BUGS if not b.get("skip")]
