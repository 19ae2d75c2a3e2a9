import os, importlib.util
_s = importlib.util.spec_from_file_location("b", os.path.join(os.path.dirname(os.path.abspath(__file__)), "bugs_b.py")); _m = importlib.util.module_from_spec(_s); _s.loader.exec_module(_m)
NODE, TX, LAZY, REPO, CLI, IN, IT, ID, DOC, FS, IVL = (getattr(_m, k) for k in "NODE TX LAZY REPO CLI IN IT ID DOC FS IVL".split())
RES, TRG, SCH, SAVE, DEL, GR, PX, DER, MAIN = ("plotline/src/schema/resource.rs", "plotline/src/schema/trigger.rs", "plotline/src/schema/mod.rs",
  "plotline/src/schema/ops/save.rs", "plotline/src/schema/ops/delete.rs", "plotline/src/graph/mod.rs", "plotline/src/graph/proxy.rs", "plotline/src/deref.rs", "plotline-cli/src/main.rs")
GET = '''            Some(Operation::Save(node)) => Some(node.clone()),
            Some(Operation::Delete(_)) => None,
            None => self
                .parent
                .map(|parent| parent.get(id))
                .unwrap_or_else(|| self.graph.get(id)),'''
BUGS = [
dict(id="c01", property="C01", edits=[(TX, '''        ops.into_iter().for_each(|op| match op {''', '''        let mut pending = ops;
        if pending.len() > 512 {
            // Only the outcome of each node matters.
            let mut seen = std::collections::BTreeSet::new();
            pending.retain(|op| seen.insert(op.id().clone()));
        }

        pending.into_iter().for_each(|op| match op {''')],
 needs="a transaction of more than 512 operations that touches a node twice",
 breaks="a large transaction keeps the first operation on each node instead of the last",
 demo=NODE + '''fn main() { let s: Schema<N> = Graph::default().into();
 s.transaction().with(|c| { for i in 0..600 { c.save(n(i, "a")); } c.save(n(5, "b")); c.delete(6); Ok(()) }).unwrap();
 assert_eq!(dump(&s)[5].1, "b"); assert_eq!(dump(&s).len(), 599); }'''),
dict(id="c02", property="C02", edits=[(TX, '''            None => self
                .parent
                .map(|parent| parent.get(id))
                .unwrap_or_else(|| self.graph.get(id)),''', '''            None => match self.parent {
                Some(parent) if !parent.operations.read().is_ok_and(|ops| ops.is_empty()) => {
                    parent.get(id)
                }
                _ => self.graph.get(id),
            },''')],
 needs="a subtransaction two levels deep, whose direct parent has no pending operation while its grandparent has",
 breaks="changes of the grandparent are invisible in a subtransaction when the parent has none of its own",
 demo=NODE + '''fn main() { let s: Schema<N> = Graph::default().into();
 s.transaction().with(|a| { a.save(n(1, "x")); a.transaction().with(|b| b.transaction().with(|c| { assert_eq!(c.get(&1), Some(n(1, "x"))); Ok(()) })) }).unwrap(); }'''),
dict(id="c03", property="C03", edits=[(TX, '''        upstream_ops.extend(ops);''', '''        // Repeating the latest operation would change nothing.
        let mut ops = ops;
        if let (Some(Operation::Delete(_)), Some(Operation::Delete(_)), 1) =
            (upstream_ops.last(), ops.last(), ops.len())
        {
            ops.clear();
        }

        upstream_ops.extend(ops);''')],
 needs="a subtransaction made of one deletion, committed right after another deletion in the enclosing transaction",
 breaks="the second of two consecutive deletions, if made in a subtransaction, is dropped",
 demo=NODE + '''fn main() { let s: Schema<N> = Graph::default().with_node(n(1, "a")).with_node(n(2, "b")).into();
 s.transaction().with(|a| { a.delete(1); a.transaction().with(|b| { b.delete(2); Ok(()) }) }).unwrap(); assert_eq!(dump(&s), vec![]); }'''),
dict(id="c04", property="C04", edits=[(TX, '''impl<T> Transaction for Background<'_, T>''', '''impl<T> Drop for Background<'_, T>
where
    T: Identify,
{
    fn drop(&mut self) {
        // Nothing was written, so the graph must not end up poisoned.
        if std::thread::panicking() {
            self.guard.take().map(std::mem::forget);
        }
    }
}

impl<T> Transaction for Background<'_, T>'''), (TX, '''            tracing::error!("committing uninitialized transaction");
            return;
        };

        let Some(ops) = Arc::into_inner(self.operations) else {''', '''            tracing::error!("committing uninitialized transaction");
            return;
        };

        let Some(ops) = Arc::into_inner(std::mem::take(&mut self.operations)) else {''')],
 needs="a transaction that panics", breaks="a transaction that panics leaves the schema locked for ever",
 demo=NODE + '''fn main() { let s: Schema<N> = Graph::default().into();
 let _ = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| { let _ = s.transaction().with(|_| -> Result<()> { panic!() }); }));
 std::thread::spawn(|| { std::thread::sleep(std::time::Duration::from_secs(5)); eprintln!("stuck"); std::process::exit(1) });
 assert_eq!(dump(&s), vec![]); }'''),
dict(id="c41", property="C03", edits=[(TX, '''    type Target = T;

    fn with<F, U>(self, f: F) -> Result<U>
    where
        F: FnOnce(Context<'_, Self::Target>) -> Result<U>,
    {
        f((&self).into()).inspect(|_| {
            self.commit();
        })
    }
}

impl<T> Foreground<'_, T>''', '''    type Target = T;

    fn with<F, U>(self, f: F) -> Result<U>
    where
        F: FnOnce(Context<'_, Self::Target>) -> Result<U>,
    {
        let upstream = self.context.operations.clone();
        let len = upstream.read().map(|ops| ops.len()).unwrap_or(usize::MAX);

        f((&self).into())
            .inspect(|_| {
                self.commit();
            })
            .inspect_err(|_| {
                // Rollback.
                if let Ok(mut ops) = upstream.write() {
                    ops.truncate(len);
                }
            })
    }
}

impl<T> Foreground<'_, T>''')],
 needs="the enclosing transaction changing something while a subtransaction is open that then fails",
 breaks="a failing subtransaction also undoes what the enclosing transaction did while it was open",
 demo=NODE + '''fn main() { let s: Schema<N> = Graph::default().into();
 s.transaction().with(|a| { let _ = a.transaction().with(|_| -> Result<()> { a.save(n(1, "x")); Err(Error::Noop) }); Ok(()) }).unwrap(); assert_eq!(dump(&s).len(), 1); }'''),
dict(id="c05", property="C05", edits=[(SAVE, '''            ctx.triggers().select(AfterSave).execute(&ctx)?;
''', '''            ctx.triggers().select(AfterSave).execute(&ctx)?;

            // The triggers may have completed the node.
            use crate::deref::WithMut;
            ctx.target().with_mut(|node| ctx.save(node.clone()));
''')],
 needs="an after-save trigger that changes or deletes the node just saved",
 breaks="the node is recorded a second time after the after-triggers, undoing what they did to it",
 demo=NODE + '''fn main() { let s: Schema<N> = Schema::from(Graph::default()).with_trigger(plotline::schema::ops::save::AfterSave, |c: plotline::schema::transaction::Ctx<N>| c.transaction().with(|c| { c.delete(1); Ok(()) }));
 Save::new(n(1, "a")).execute(s.transaction()).unwrap(); assert_eq!(dump(&s), vec![]); }'''),
dict(id="c06", property="C06", edits=[(DEL, '''            ctx.delete(self.node_id);
            ctx.triggers().select(AfterDelete).execute(&ctx)?;
''', '''            if ctx.node(self.node_id.clone()).is_virtual() {
                return Ok(());
            }

            ctx.delete(self.node_id);
            ctx.triggers().select(AfterDelete).execute(&ctx)?;
''')],
 needs="a before-delete trigger that deletes the addressed node itself",
 breaks="the after-delete triggers do not run when a before-trigger already removed the node",
 demo=NODE + '''fn main() { let k = Rc::new(Cell::new(0)); let k2 = k.clone();
 let s: Schema<N> = Schema::from(Graph::default().with_node(n(1, "a")))
  .with_trigger(plotline::schema::ops::delete::BeforeDelete, |c: plotline::schema::transaction::Ctx<N>| c.transaction().with(|c| { c.delete(1); Ok(()) }))
  .with_trigger(plotline::schema::ops::delete::AfterDelete, move |_: plotline::schema::transaction::Ctx<N>| { k2.set(k2.get() + 1); Ok(()) });
 Delete::new(1).execute(s.transaction()).unwrap(); assert_eq!(k.get(), 1); assert_eq!(dump(&s), vec![]); }'''),
dict(id="c07", property="C07", edits=[(TRG, '''            Some(triggers) => triggers.push(trigger),''', '''            Some(triggers) if triggers.len() == triggers.capacity() && triggers.len() >= 16 => {
                triggers.reserve(16);
                let at = triggers.len() - 1;
                triggers.insert(at, trigger);
            }
            Some(triggers) => triggers.push(trigger),''')],
 needs="seventeen or more triggers for the same event",
 breaks="the seventeenth trigger of an event runs before the sixteenth",
 demo=NODE + '''fn main() { let log = Rc::new(RefCell::new(vec![])); let mut s: Schema<N> = Graph::default().into();
 for i in 0..40 { let l = log.clone(); s = s.with_trigger(1u8, move |_: plotline::schema::transaction::Ctx<N>| { l.borrow_mut().push(i); Ok(()) }); }
 s.transaction().with(|c| s.triggers().select(1u8).execute(&c)).unwrap(); assert_eq!(*log.borrow(), (0..40).collect::<Vec<i32>>()); }'''),
dict(id="c08", property="C08", edits=[(TX, '''    pub fn with_target(mut self, target: T) -> Self {
        self.target.set(target);
        self''', '''    pub fn with_target(self, target: T) -> Self {
        let lock = self.target.lock.clone();
        match lock.as_ref().and_then(|lock| lock.write().ok()) {
            Some(mut current) => *current = target,
            None => return self.retarget(target),
        }

        self'''), (TX, '''    /// Registers the save operation as part of the transaction.''', '''    /// Replaces the target's cell.
    fn retarget(mut self, target: T) -> Self {
        self.target.set(target);
        self
    }

    /// Registers the save operation as part of the transaction.''')],
 needs="a context given a second target while a handle to the first is kept",
 breaks="assigning a new target writes into the cell of the previous one, so kept handles change under their holder",
 demo=NODE.replace("Background", "Target, Background") + '''fn main() { use plotline::deref::*; let s: Schema<N> = Graph::default().into();
 s.transaction().with(|c| { let c = c.with_target(n(1, "a")); let t = c.target().clone(); let c = c.with_target(n(2, "b"));
 assert_eq!(t.with(|x| x.id), Some(1)); assert_eq!(c.target().with(|x| x.id), Some(2)); Ok(()) }).unwrap(); }'''),
dict(id="c09", property="C09", edits=[(RES, '''        self.resources
            .insert(type_id, Arc::new(RwLock::new(Box::new(resource))));
        self''', '''        if let Some(cell) = self.resources.get(&type_id) {
            if let Ok(mut current) = cell.write() {
                *current = Box::new(resource);
            }

            return self;
        }

        self.resources
            .insert(type_id, Arc::new(RwLock::new(Box::new(resource))));
        self''')],
 needs="a handle to a resource kept while the resource is registered again",
 breaks="registering a resource again writes into the old cell, which handles taken earlier still reach",
 demo=NODE + '''fn main() { use plotline::{deref::*, schema::resource::{Res, ResourceSet}}; let s = ResourceSet::default().with_resource(1u8); let old = Res::<u8>::from(&s); let s = s.with_resource(2u8);
 assert_eq!(old.with(|x| *x), Some(1)); assert_eq!(Res::<u8>::from(&s).with(|x| *x), Some(2)); }'''),
dict(id="c10", property="C10", edits=[(GR, '''    pub fn with_node(mut self, node: T) -> Self {
        self.nodes.insert(node.id().clone(), node);
        self''', '''    pub fn with_node(mut self, node: T) -> Self {
        self.nodes.entry(node.id().clone()).or_insert(node);
        self''')],
 needs="with_node given an id the graph already has",
 breaks="with_node keeps the old node instead of overwriting it",
 demo=NODE + '''fn main() { let g = Graph::default().with_node(n(1, "a")).with_node(n(1, "b")); assert_eq!(g.get(&1).unwrap().v, "b"); }'''),
dict(id="c11", property="C11", edits=[(PX, '''            .map(|edge| Self {
                source: self.source,
                id: edge.id().clone(),
                value: Default::default(),
            })''', '''            .map(|edge| {
                if edge.id().cmp(&self.id).is_eq() {
                    return Self {
                        source: self.source,
                        id: edge.id().clone(),
                        value: match self.value.get() {
                            Some(None) | None => Default::default(),
                            Some(Some(_)) => OnceLock::from(self.source.get(edge.id())),
                        },
                    };
                }

                Self {
                    source: self.source,
                    id: edge.id().clone(),
                    value: Default::default(),
                }
            })''')],
 needs="a node with an edge to itself, replaced in the source between taking its successors and dereferencing them",
 breaks="the successor handle of a self-loop is loaded eagerly instead of at its first dereference",
 demo=NODE + '''fn main() { let s: Schema<N> = Graph::default().with_node(N { id: 1, v: "a".into(), edges: vec![1] }).into();
 s.transaction().with(|c| { let p = c.node(1); let e = p.successors::<E>(); c.save(n(1, "b")); use plotline::deref::TryDeref; assert_eq!(e[0].try_deref().unwrap().v, "b"); Ok(()) }).unwrap(); }'''),
dict(id="c12", property="C12", edits=[(LAZY, '''    document: OnceLock<DocumentRepo::Document>,
}

impl<DocumentRepo> Clone''', '''    document: OnceLock<DocumentRepo::Document>,
    /// Whether the document is being loaded.
    loading: Arc<std::sync::atomic::AtomicBool>,
}

impl<DocumentRepo> Clone'''), (LAZY, '''            document: self.document.clone(),''', '''            document: self.document.clone(),
            loading: Default::default(),'''), (LAZY, '''                document: Default::default(),
            }''', '''                document: Default::default(),
                loading: Default::default(),
            }'''), (LAZY, '''            document: Default::default(),
        };''', '''            document: Default::default(),
            loading: Default::default(),
        };'''), (LAZY, '''        let document = self.document_repo.find_by_id(&self.document_id)?;
        Some(self.document.get_or_init(|| document))''', '''        use std::sync::atomic::Ordering;
        if self.loading.swap(true, Ordering::AcqRel) {
            return self.document.get();
        }

        let document = self.document_repo.find_by_id(&self.document_id);
        if let Some(document) = document {
            let _ = self.document.set(document);
        }

        self.loading.store(false, Ordering::Release);
        self.document.get()''')],
 needs="a dereference while another thread is loading the same document, or after a load that panicked",
 breaks="a document being loaded by someone else is reported as missing (for ever, after a panic)",
 demo=DOC + '''fn main() { struct P(AtomicUsize); impl DocumentRepository for P { type Document = D; fn find_by_id(&self, id: &u32) -> Option<D> { if self.0.fetch_add(1, SeqCst) == 0 { panic!() } Some(D { id: *id, v: 1 }) } }
 let l = LazyDocument::builder(Arc::new(P(AtomicUsize::new(0))))(1); let _ = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| { l.try_deref(); })); assert!(l.try_deref().is_some()); }'''),
dict(id="c13", property="C13", kind="cli", edits=[(REPO, '''        fs::read(&path)''', '''        fs::File::open(&path)
            .and_then(|file| {
                use std::io::Read;
                let mut bytes = Vec::new();
                file.take(1 << 20).read_to_end(&mut bytes).map(|_| bytes)
            })''')],
 needs="a document larger than one mebibyte",
 breaks="only the first mebibyte of a document is loaded",
 demo=FS + '''fn main() { let b = vec![7u8; (1 << 20) + 1]; fs::write("a.md", &b).unwrap(); assert!(repo("md").find_by_id(&"a".into()).unwrap().bytes == b); }'''),
dict(id="c14", property="C14", kind="cli", edits=[(REPO, '''        Walk::new(&self.context)
''', '''        WalkBuilder::new(&self.context)
            .max_filesize(Some(4 << 20))
            .build()
'''), (REPO, "use ignore::Walk;", "use ignore::WalkBuilder;")],
 needs="a document larger than four mebibytes",
 breaks="large documents are not listed",
 demo=FS + '''fn main() { fs::File::create("a.md").unwrap().set_len((4 << 20) + 1).unwrap(); assert_eq!(ids(&repo("md")), vec![PathBuf::from("a")]); }'''),
dict(id="c15", property="C15", kind="bin", edits=[(CLI, '''                self.schema
                    .read()
                    .into_iter()
                    .try_for_each(|node| writeln!(stdout, "{:?}", node.id()))?;''', '''                let mut listed = String::new();
                self.schema.read().into_iter().try_for_each(|node| {
                    let id = format!("{:?}", node.id());
                    if id.to_lowercase() == listed.to_lowercase() {
                        return Ok(());
                    }

                    writeln!(stdout, "{id}")?;
                    listed = id;
                    Ok::<_, io::Error>(())
                })?;''')],
 needs="two documents adjacent in the order whose ids differ only by case",
 breaks="of two documents whose names differ only by case, one is not listed",
 demo='''mkdir -p B; : > B.md; : > b.md; test "$("$plot" doc ls | wc -l)" = 2
'''),
dict(id="c16", property="C16", kind="ivl", edits=[(IN, '''    pub fn delete(mut self: Box<Self>, interval: &Intv) -> Option<Box<Self>> {
        if &self.value == interval {''', '''    pub fn delete(mut self: Box<Self>, interval: &Intv) -> Option<Box<Self>> {
        if self.max < interval.hi() {
            return Some(self);
        }

        if self.left.is_none() && self.right.is_some() && &self.value == interval {
            return self.rotate_left().drop_left(interval);
        }

        if &self.value == interval {'''), (IN, '''    /// Creates a new node containing the given interval.''', '''    /// Drops the left-most child, without going through the whole tree.
    fn drop_left(mut self: Box<Self>, _: &Intv) -> Option<Box<Self>> {
        self.left = None;
        Some(self)
    }

    /// Creates a new node containing the given interval.''')],
 needs="deleting an interval without a left child, whose right child has a left child of its own",
 breaks="deleting an interval also drops the left subtree of its right child",
 demo=IVL + '''fn main() { let mut t = IntervalSearchTree::default().with_interval(I(0, 1)).with_interval(I(10, 11)).with_interval(I(5, 6)); t.delete(&I(0, 1)); assert_eq!(hits(&t, I(0, 20)), vec![(5, 6), (10, 11)]); }'''),
dict(id="c17", property="C17", kind="ivl", edits=[(ID, '''        self.components == other.components''', '''        self.components
            .iter()
            .zip(other.components.iter())
            .skip(1)
            .all(|(this, other)| this == other)
            && self.components.first() == other.components.first()
            || N > 6 && self.components[..6] == other.components[..6]''')],
 needs="dates of more than six components that differ beyond the sixth",
 breaks="dates of more than six components are equal although they order differently",
 demo=IVL + '''use ivl::date::*; fn main() { let a = BigEndianDate::<7, u8>::fixture([1; 7]); let b = BigEndianDate::<7, u8>::fixture([1, 1, 1, 1, 1, 1, 2]); assert!(a != b); }'''),
dict(id="c18", property="C18", edits=[(TX, '''        let Some(mut guard) = self.guard.take() else {
            tracing::error!("committing uninitialized transaction");
            return;
        };
''', '''        let Some(guard) = self.guard.take() else {
            tracing::error!("committing uninitialized transaction");
            return;
        };

        // Give readers that queued up meanwhile a chance.
        drop(guard);
        let mut guard = self.schema.write();
''')],
 needs="another access scheduled between the end of a transaction's closure and its commit",
 breaks="the schema is released and locked again before committing: lost updates",
 demo=NODE + '''
#[derive(Debug, Clone)] struct M { id: u32, v: usize } impl Identify for M { type Id = u32; fn id(&self) -> &u32 { &self.id } }
struct Sh(Schema<M>); unsafe impl Sync for Sh {} unsafe impl Send for Sh {}
fn main() { let s = Arc::new(Sh(Graph::default().with_node(M { id: 1, v: 0 }).into()));
 let ts: Vec<_> = (0..6).map(|_| { let s = s.clone(); std::thread::spawn(move || { let s = &*s; for _ in 0..20000 { s.0.transaction().with(|c| { let m = c.get(&1).unwrap(); c.save(M { id: 1, v: m.v + 1 }); Ok(()) }).unwrap(); } }) }).collect();
 for t in ts { t.join().unwrap(); } assert_eq!(s.0.read().get(&1).unwrap().v, 120000); }'''),
dict(id="c19", property="C19", edits=[(RES, '''#[derive(Debug, Default)]
pub struct ResourceSet {
    resources: BTreeMap<TypeId, Arc<RwLock<Box<dyn Any>>>>,
}''', '''#[derive(Debug, Default)]
pub struct ResourceSet {
    resources: BTreeMap<TypeId, Arc<RwLock<Box<dyn Any>>>>,
    /// Values that were overwritten.
    history: Vec<Arc<RwLock<Box<dyn Any>>>>,
}'''), (RES, '''        self.resources
            .insert(type_id, Arc::new(RwLock::new(Box::new(resource))));
        self''', '''        let old = self
            .resources
            .insert(type_id, Arc::new(RwLock::new(Box::new(resource))));
        self.history.extend(old);
        self''')],
 needs="a resource registered twice",
 breaks="an overwritten resource is retained until the schema is dropped",
 demo=NODE + '''fn main() { use plotline::schema::resource::ResourceSet; let a = Rc::new(1); let s = ResourceSet::default().with_resource(a.clone()).with_resource(Rc::new(2)); assert_eq!(Rc::strong_count(&a), 1); drop(s); }'''),
dict(id="c20", property="C20", kind="bin", edits=[(CLI, '''                Delete::new(document_id()?).execute(self.schema.transaction())?
''', '''                let document_id = document_id()?;
                Delete::new(document_id.clone()).execute(self.schema.transaction())?;

                // A section without documents is of no use.
                let _ = std::fs::remove_dir(&document_id);
'''), ],
 needs="deleting a document next to an empty directory of the same name, inside the working directory",
 breaks="deleting a document also removes an unrelated empty directory",
 demo='''mkdir a; : > a.md; "$plot" doc a delete || true; test -d a
'''),
dict(id="c22", property="C22", edits=[(DER, '''                $(let mut $t = self.$i.write();)*

                let target = (
                    $($t.try_deref_mut()?),*
                );

                Some(f(target))''', '''                $(let mut $t = std::mem::ManuallyDrop::new(self.$i.write());)*

                let target = (
                    $($t.try_deref_mut()?),*
                );

                let result = f(target);
                $(drop(std::mem::ManuallyDrop::into_inner($t));)*
                Some(result)''')],
 needs="a scoped write over several values, one of which is missing (or a closure that panics)",
 breaks="the guards of the other values are never released",
 demo=NODE + '''fn main() { use plotline::{deref::*, schema::resource::{Res, ResourceSet}}; let s = ResourceSet::default().with_resource(1u8); let (a, b) = (Res::<u8>::from(&s), Res::<u16>::from(&s));
 std::thread::spawn(|| { std::thread::sleep(std::time::Duration::from_secs(5)); std::process::exit(1) });
 assert!((a, b).with_mut(|_| ()).is_none()); assert_eq!(Res::<u8>::from(&s).with(|x| *x), Some(1)); }'''),
dict(id="c23", property="C23", edits=[(RES, '''impl ResourceSet {
    /// Registers''', '''// Every resource is behind a lock.
unsafe impl Send for ResourceSet {}
unsafe impl Sync for ResourceSet {}

impl ResourceSet {
    /// Registers''')],
 needs="a resource that is not thread-safe (an Rc, a Cell), used from two threads through a shared set",
 breaks="a resource set claims to be thread-safe for any resource: data races from safe code",
 demo=NODE + '''fn main() {
 struct P<T>(std::marker::PhantomData<T>); trait No { fn sync(&self) -> bool { false } } impl<T> No for P<T> {} impl<T: Sync> P<T> { fn sync(&self) -> bool { true } }
 assert!(!P::<plotline::schema::resource::ResourceSet>(std::marker::PhantomData).sync()); }'''),
dict(id="c26", property="C26", edits=[(TRG, '''        triggers.iter().try_for_each(|trigger| trigger.execute(ctx))''', '''        thread_local!(static DEPTH: std::cell::Cell<usize> = const { std::cell::Cell::new(0) });

        // Triggers that trigger themselves would never end.
        if DEPTH.get() > 2 {
            return Ok(());
        }

        DEPTH.set(DEPTH.get() + 1);
        let result = triggers.iter().try_for_each(|trigger| trigger.execute(ctx));
        DEPTH.set(DEPTH.get() - 1);
        result''')],
 needs="operations on several schemas nested through triggers more than three deep",
 breaks="triggers of a schema are skipped because of operations in progress on other schemas",
 demo=NODE + '''type Sc = Rc<Schema<N>>; fn main() { let k = Rc::new(Cell::new(0)); let mut next: Option<Sc> = None;
 for i in 0..6 { let (k, nx) = (k.clone(), next.clone()); next = Some(Rc::new(Schema::from(Graph::default()).with_trigger(plotline::schema::ops::save::AfterSave, move |_: plotline::schema::transaction::Ctx<N>| { k.set(k.get() + 1); match &nx { Some(s) => Save::new(n(i, "x")).execute(s.transaction()), None => Ok(()) } }))); }
 Save::new(n(9, "a")).execute(next.unwrap().transaction()).unwrap(); assert_eq!(k.get(), 6); }'''),
# a second one for the checks with little behind them
dict(id="c28", property="C24", kind="cli", edits=[(CLI, '''                let document_id = document_id()?;
                let document = Document {''', '''                let document_id = document_id()?;
                if args.content.is_none() {
                    if let Some(_old) = self.document_repo.find_by_id(&document_id) {
                        tracing::info!("overwriting an existing document");
                    }
                }

                let document = Document {''')],
 needs="a save without content", breaks="a save without content reads the old document (and complains if there is none)",
 demo='''fn main() { use std::process::*; use plotline::{graph::Graph, schema::Schema, document::{DocumentRepository, lazy::LazyDocument}, prelude::*}; use plotline_cli::{CliCommand, document::*}; use std::{sync::{Arc, atomic::*}, path::PathBuf};
 #[derive(clap::Parser)] struct A { #[command(subcommand)] c: CliCommand }
 struct R(AtomicUsize); impl DocumentRepository for R { type Document = Document; fn find_by_id(&self, _: &PathBuf) -> Option<Document> { self.0.fetch_add(1, Ordering::SeqCst); None } }
 let r = Arc::new(R(AtomicUsize::new(0))); let cli = DocumentCli { schema: Arc::new(Schema::from(Graph::default())), document_repo: r.clone() };
 let CliCommand::Doc(c) = <A as clap::Parser>::parse_from(["x", "doc", "a", "save"]).c; cli.execute(c).unwrap(); assert_eq!(r.0.load(Ordering::SeqCst), 0); }''', deps='clap = { version = "4", features = ["derive"] }\n'),
dict(id="c29", property="C25", kind="bin", edits=[(REPO, '''                if let Err(err) = &entry {
                    tracing::error!(''', '''                if let Err(err) = &entry {
                    if err.depth().is_some_and(|depth| depth > 1) {
                        panic!("{err}");
                    }

                    tracing::error!(''')],
 needs="an unreadable directory below the first level", breaks="an unreadable subdirectory makes the tool panic",
 demo='''mkdir -p a/b; : > x.md; chmod 0 a/b; chmod 755 "$w" "$w/run" "$w/target" "$w/target/debug"; test "$(setpriv --reuid 65534 --regid 65534 --clear-groups "$plot" doc ls)" = '"x"'
'''),
dict(id="c30", property="C23", edits=[(PX, '''            value: self.value.clone(),''', '''            value: match self.value.get() {
                // The node is not modified anymore, there is no need for a second one.
                Some(_) => unsafe { std::ptr::read(&self.value) },
                None => Default::default(),
            },''')],
 needs="a clone of a dereferenced handle to a node that owns memory", breaks="both handles own the same node: double free",
 demo=NODE + '''fn main() { use plotline::deref::TryDeref; let g = Graph::default().with_node(n(1, "a long enough string to live on the heap")); let p = g.node(1); p.try_deref(); let q = p.clone(); drop(p); let _z: Vec<String> = (0..64).map(|i| format!("other long enough string for the heap {i}")).collect(); assert_eq!(q.try_deref().unwrap().v, "a long enough string to live on the heap"); }'''),
dict(id="c31", property="C18", edits=[(TX, '''        ops.into_iter().for_each(|op| match op {
            Operation::Save(node) => {
                guard.insert(node);
            }
            Operation::Delete(node_id) => {
                guard.remove(&node_id);
            }
        });''', '''        let mut ops = ops.into_iter().peekable();
        while let Some(op) = ops.next() {
            match op {
                Operation::Save(node) => {
                    guard.insert(node);
                }
                Operation::Delete(node_id) => {
                    guard.remove(&node_id);
                    // Deletions may take long, let readers in.
                    if ops.peek().is_some() {
                        drop(guard);
                        guard = self.schema.write();
                    }
                }
            }
        }''')],
 needs="a concurrent reader scheduled between a deletion and the operation after it in the same commit", breaks="readers see part of a transaction",
 demo=NODE + '''struct Sh(Schema<N>); unsafe impl Sync for Sh {} unsafe impl Send for Sh {}
fn main() { let s = Arc::new(Sh(Graph::default().with_node(n(1, "a")).into())); let stop = Arc::new(std::sync::atomic::AtomicBool::new(false));
 let (s2, st) = (s.clone(), stop.clone()); let t = std::thread::spawn(move || { let s = &*s2; for i in 0..60000u32 { s.0.transaction().with(|c| { c.delete(1 + i % 2); c.save(n(1 + (i + 1) % 2, "a")); Ok(()) }).unwrap(); } st.store(true, std::sync::atomic::Ordering::SeqCst); });
 let mut bad = 0; while !stop.load(std::sync::atomic::Ordering::SeqCst) { if s.0.read().into_iter().count() != 1 { bad += 1; } } t.join().unwrap(); assert_eq!(bad, 0); }'''),
dict(id="c32", property="C20", kind="bin", edits=[(CLI, '''                Save::new(LazyDocument::new(self.document_repo.clone(), document))''', '''                if let Some(parent) = document_id.parent().filter(|parent| parent.is_dir()) {
                    // Makes sure that the document can be written afterwards.
                    let probe = parent.join(".plot~");
                    std::fs::write(&probe, [])?;
                    std::fs::remove_file(&probe)?;
                }

                Save::new(LazyDocument::new(self.document_repo.clone(), document))''')],
 needs="a save into an existing subdirectory of the working directory", breaks="a save creates and removes a probe file, destroying a file of that name",
 demo='''mkdir a; echo x > a/.plot~; "$plot" doc a/b save y || true; test -f a/.plot~
'''),
dict(id="c33", property="C12", edits=[(LAZY, '''            document: self.document.clone(),''', '''            document: match self.try_deref_cached() {
                Some(_) => self.document.clone(),
                None => match self.document_repo.find_by_id(&self.document_id) {
                    Some(document) => OnceLock::from(document),
                    None => Default::default(),
                },
            },'''), (LAZY, '''impl<DocumentRepo> TryDeref for LazyDocument<DocumentRepo>''', '''impl<DocumentRepo> LazyDocument<DocumentRepo>
where
    DocumentRepo: DocumentRepository,
{
    fn try_deref_cached(&self) -> Option<&DocumentRepo::Document> {
        self.document.get()
    }
}

impl<DocumentRepo> TryDeref for LazyDocument<DocumentRepo>''')],
 needs="a copy of a document that is not loaded yet", breaks="copying a document that is not loaded loads it",
 demo=DOC + '''fn main() { let r = repo(false); let l = LazyDocument::builder(r.clone())(1); let _m = l.clone(); assert_eq!(r.asked.load(SeqCst), 0); }'''),
dict(id="c34", property="C09", edits=[(RES, '''        match lock.write() {
            Ok(guard) => ResWriteGuard {
                guard: Some(guard),
                _type: PhantomData,
            },''', '''        match lock.write() {
            Ok(guard) if Arc::strong_count(lock) > 64 => {
                tracing::warn!("resource is too contended");
                drop(guard);
                Default::default()
            }
            Ok(guard) => ResWriteGuard {
                guard: Some(guard),
                _type: PhantomData,
            },''')],
 needs="more than sixty handles to one resource at once", breaks="writes are refused when many handles to the resource exist",
 demo=NODE + '''fn main() { use plotline::{deref::*, schema::resource::{Res, ResourceSet}}; let s = ResourceSet::default().with_resource(1u8); let v: Vec<Res<u8>> = (0..80).map(|_| Res::from(&s)).collect(); assert!(v[0].with_mut(|x| *x = 2).is_some()); }'''),
dict(id="c35", property="C13", kind="cli", edits=[(REPO, '''                .map(|bytes| Document {''', '''                .map(|bytes| Document {''')], needs="", breaks="", demo="", skip=True),
dict(id="c36", property="C15", kind="bin", edits=[(CLI, '''                .map(|id| <DocumentRepo::Document as Identify>::Id::from_str(&id))''', '''                .map(|id| <DocumentRepo::Document as Identify>::Id::from_str(id.trim()))''')],
 needs="a document whose id starts or ends with a blank", breaks="ids on the command line are trimmed: such a document cannot be addressed",
 demo='''echo x > ' a.md'; "$plot" doc ' a' delete
'''),
dict(id="c37", property="C10", edits=[(GR, '''            nodes: BTreeMap::from_iter(nodes.into_iter().map(|node| (node.id().clone(), node))),''', '''            nodes: nodes.into_iter().fold(BTreeMap::new(), |mut all, node| {
                let id = node.id().clone();
                match all.last_entry() {
                    Some(last) if last.key() > &id => {
                        all.entry(id).or_insert(node);
                    }
                    _ => {
                        all.insert(id, node);
                    }
                }

                all
            }),''')],
 needs="an iterator that repeats an id after a greater one", breaks="collecting a graph keeps the first of two nodes with one id if a greater id came in between",
 demo=NODE + '''fn main() { let g = Graph::from_iter(vec![n(1, "a"), n(2, "x"), n(1, "b")]); assert_eq!(g.get(&1).unwrap().v, "b"); }'''),
dict(id="c38", property="C16", kind="ivl", edits=[(IN, '''        } else if let Some(right) = self.right.take() {
            self.right = Some(right.insert(interval));
        } else {''', '''        } else if let Some(right) = self.right.take() {
            self.right = Some(right.insert(interval));
            if self.left.is_none() && self.right.as_ref().is_some_and(|right| right.left.is_none()) {
                return self.rotate_left();
            }
        } else {''')],
 needs="intervals with equal lower bounds that a rotation moves to the left side, one of which is then deleted", breaks="after a rebalance, intervals with equal lower bounds are on both sides: deleting one of them does nothing",
 demo=IVL + '''fn main() { let mut t = IntervalSearchTree::default(); for i in 0..5 { t.insert(I(0, i)); } for i in 0..5 { t.delete(&I(0, i)); } assert_eq!(hits(&t, I(0, 9)), vec![]); }'''),
dict(id="c39", property="C22", edits=[(DER, '''                $(let $t = self.$i.read();)*

                let target = (
                    $($t.try_deref()?),*
                );

                Some(f(target))''', '''                $(if self.$i.read().try_deref().is_none() {
                    return None;
                })*

                $(let $t = self.$i.read();)*

                let target = (
                    $($t.try_deref()?),*
                );

                Some(f(target))''')],
 needs="never", breaks="", demo="", skip=True),
dict(id="c40", property="C19", edits=[(TX, '''    pub fn set(&mut self, value: T) {
        self.lock = Some(Arc::new(RwLock::new(value)));''', '''    pub fn set(&mut self, value: T) {
        let lock = Arc::new(RwLock::new(value));
        if let Some(old) = self.lock.replace(lock) {
            // Somebody may be still looking at it.
            std::mem::forget(old);
        }''')],
 needs="a context given a second target", breaks="the replaced target is never released",
 demo=NODE + '''#[derive(Clone)] struct M(u32, Rc<()>); impl Identify for M { type Id = u32; fn id(&self) -> &u32 { &self.0 } }
fn main() { let a = Rc::new(()); let s: Schema<M> = Graph::default().into(); s.transaction().with(|c| { let c = c.with_target(M(1, a.clone())); let _c = c.with_target(M(2, Rc::new(()))); Ok(()) }).unwrap(); assert_eq!(Rc::strong_count(&a), 1); }'''),
]
BUGS = [b for b in BUGS if not b.get("skip")]
