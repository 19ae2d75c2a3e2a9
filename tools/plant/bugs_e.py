import os, importlib.util
_s = importlib.util.spec_from_file_location("d", os.path.join(os.path.dirname(os.path.abspath(__file__)), "bugs_d.py")); _m = importlib.util.module_from_spec(_s); _s.loader.exec_module(_m)
NODE, TX, LAZY, REPO, CLI, IN, IT, ID, IVL, RES, TRG, SCH, SAVE, DEL, GR, PX, DER, MAIN, DOC, FS, TRIG = (getattr(_m, k) for k in "NODE TX LAZY REPO CLI IN IT ID IVL RES TRG SCH SAVE DEL GR PX DER MAIN DOC FS TRIG".split())
APPLY = '''        ops.into_iter().for_each(|op| match op {
            Operation::Save(node) => {
                guard.insert(node);
            }'''
UP = '''        let mut upstream_ops = match self.context.operations.write() {'''
GETF = '''        match guard.iter().rev().find(|&op| op.id() == id) {
            Some(Operation::Save(node)) => Some(node.clone()),'''
BUGS = [
dict(id="e01", property="C01", edits=[(TX, APPLY, '''        if guard.into_iter().next().is_none() {
            // There is nothing to replace nor delete: the graph can be built at once.
            *guard = ops
                .into_iter()
                .filter_map(|op| match op {
                    Operation::Save(node) => Some(node),
                    Operation::Delete(_) => None,
                })
                .collect();
            return;
        }

''' + APPLY)],
 needs="an empty graph, and a transaction that saves a node and deletes it again", breaks="on an empty graph a transaction's deletes are ignored",
 demo=NODE + '''fn main() { let s: Schema<N> = Graph::default().into();
 s.transaction().with(|c| { c.save(n(1, "a")); c.delete(1); c.save(n(2, "b")); Ok(()) }).unwrap(); assert_eq!(dump(&s).len(), 1); }'''),
dict(id="e02", property="C02", edits=[(TX, '''        match guard.iter().rev().find(|&op| op.id() == id) {
            Some(Operation::Save(node)) => Some(node.clone()),''', '''        // Nodes are often saved in order, in which case there is no need to look at all of them.
        let latest = if guard.len() > 8 && guard.is_sorted_by(|a, b| a.id() <= b.id()) {
            guard
                .get(guard.partition_point(|op| op.id() < id))
                .filter(|op| op.id() == id)
        } else {
            guard.iter().rev().find(|&op| op.id() == id)
        };

        match latest {
            Some(Operation::Save(node)) => Some(node.clone()),''')],
 needs="more than eight pending operations in ascending order, with some id twice", breaks="an older pending change of a node may be read instead of the latest one",
 demo=NODE + '''fn main() { let s: Schema<N> = Graph::default().into();
 s.transaction().with(|c| { for i in 0..20 { c.save(n(i, "a")); c.save(n(i, "b")); c.save(n(i, "c")); } for i in 0..20 { assert_eq!(c.get(&i), Some(n(i, "c"))); } Ok(()) }).unwrap(); }'''),
dict(id="e03", property="C03", edits=[(TX, '''        upstream_ops.extend(ops);''', '''        let mut ops = ops;
        if ops.capacity() > upstream_ops.capacity() * 2 {
            // Spare the longest buffer.
            std::mem::swap(&mut *upstream_ops, &mut ops);
        }

        upstream_ops.extend(ops);''')],
 needs="a subtransaction with more changes than the enclosing one has, touching the same node", breaks="the older changes of the enclosing transaction end up after those of the subtransaction",
 demo=NODE + '''fn main() { let s: Schema<N> = Graph::default().into();
 s.transaction().with(|a| { a.save(n(1, "old")); a.transaction().with(|b| { for i in 0..40 { b.save(n(i, "new")); } Ok(()) })?; assert_eq!(a.get(&1), Some(n(1, "new"))); Ok(()) }).unwrap(); }'''),
dict(id="e04", property="C04", edits=[(TX, '''        guard.push(Operation::Save(node));''', '''        // Saving the same node in a row: only the latest counts.
        match guard.last_mut() {
            Some(op @ Operation::Save(_)) if op.id() == node.id() => *op = Operation::Save(node),
            _ => guard.push(Operation::Save(node)),
        }'''), (TX, '''impl<T> Context<'_, T>
where
    T: Identify,
{
    /// Assigns''', '''impl<T> Context<'_, T>
where
    T: Identify,
    T::Id: PartialEq,
{
    /// Registers the save operation as part of the transaction.
    pub fn save(&self, node: T) {
        self.record(node)
    }
}

impl<T> Context<'_, T>
where
    T: Identify,
{
    /// Assigns'''), (TX, '''    pub fn save(&self, node: T) {
        let mut guard''', '''    fn record(&self, node: T)
    where
        T::Id: PartialEq,
    {
        let mut guard'''), (SAVE, '''        T: 'static + Identify + Clone,
''', '''        T: 'static + Identify + Clone,
        T::Id: PartialEq,
''')],
 needs="a node whose identity panics when asked, saved in a transaction whose body catches that panic", breaks="the transaction reports success but none of its changes are applied",
 demo=NODE + TRIG + '''use std::sync::atomic::*; static ARMED: AtomicBool = AtomicBool::new(false);
#[derive(Clone)] struct P(u8); impl Identify for P { type Id = u8; fn id(&self) -> &u8 { if ARMED.load(Ordering::SeqCst) { panic!() } &self.0 } }
fn main() { std::panic::set_hook(Box::new(|_| ())); let s: Schema<P> = Graph::default().into();
 s.transaction().with(|c| { c.save(P(1)); ARMED.store(true, Ordering::SeqCst); let _ = catch_unwind(AssertUnwindSafe(|| { c.contains(&7); })); let _ = catch_unwind(AssertUnwindSafe(|| c.save(P(4)))); ARMED.store(false, Ordering::SeqCst); Ok(()) }).unwrap();
 assert!(s.read().contains(&1)); }'''),
dict(id="e05", property="C05", edits=[(TX, '''    pub fn save(&self, node: T) {
        let mut guard = match self.operations.write() {
            Ok(ops) => ops,
            Err(err) => err.into_inner(),
        };
''', '''    pub fn save(&self, node: T) {
        let mut guard = match self.operations.write() {
            Ok(ops) => ops,
            Err(err) => err.into_inner(),
        };

        if self.target.lock.is_some() && guard.len() >= 3 {
            // The triggers that run before saving a node may save other ones, but not remove them.
            guard.retain(|op| matches!(op, Operation::Save(_)));
        }
''')],
 needs="before-save triggers that together record at least three changes, some of them deletes", breaks="what before-save triggers deleted is not deleted",
 demo=NODE + TRIG + '''fn main() { let s: Schema<N> = Schema::from(Graph::from_iter([n(1, "a"), n(2, "a")])).with_trigger(BeforeSave, |c: Ctx<N>| c.transaction().with(|c| { c.delete(1); c.delete(2); c.save(n(3, "x")); Ok(()) }));
 Save::new(n(9, "y")).execute(s.transaction()).unwrap(); assert_eq!(dump(&s).len(), 2); }'''),
dict(id="e06", property="C06", edits=[(TX, '''        guard.push(Operation::Delete(node_id));''', '''        match guard.last() {
            // The node was there because of the last operation only.
            Some(Operation::Save(node)) if node.id() == &node_id && !self.graph.contains(&node_id) => {
                guard.pop();
            }
            _ => guard.push(Operation::Delete(node_id)),
        }'''), (TX, '''    /// Registers the delete operation as part of the transaction.
    pub fn delete(&self, node_id: T::Id) {''', '''    /// Registers the delete operation as part of the transaction.
    pub fn delete(&self, node_id: T::Id)
    where
        T: Clone,
        T::Id: Ord,
    {''')],
 needs="a node that is not in the graph, saved in a transaction and then re-saved by a before-delete trigger while it is being deleted there", breaks="the deleted node is still there, as the transaction saved it first",
 demo=NODE + TRIG + '''fn main() { let s: Schema<N> = Schema::from(Graph::default()).with_trigger(BeforeDelete, |c: Ctx<N>| c.transaction().with(|c| { c.save(n(1, "touched")); Ok(()) }));
 s.transaction().with(|c| { c.save(n(1, "a")); Delete::new(1).execute(c.transaction())?; assert!(!c.contains(&1)); Ok(()) }).unwrap(); assert_eq!(dump(&s).len(), 0); }'''),
dict(id="e07", property="C07", edits=[(TRG, '''use std::{any::TypeId, collections::BTreeMap, marker::PhantomData};''', '''use std::{any::type_name, collections::BTreeMap, marker::PhantomData};'''),
 (TRG, '''    triggers: BTreeMap<TypeId, Vec<Box<dyn Trigger<T, ()>>>>,''', '''    triggers: BTreeMap<&'static str, Vec<Box<dyn Trigger<T, ()>>>>,'''),
 (TRG, '''        let scheduler = TypeId::of::<S>();''', '''        let scheduler = type_name::<S>();'''),
 (TRG, '''        let Some(triggers) = self.triggers.get(&TypeId::of::<S>()) else {''', '''        let Some(triggers) = self.triggers.get(type_name::<S>()) else {''')],
 needs="two event types with the same printed name, such as types of sibling blocks", breaks="the triggers of one event run for another event of the same name",
 demo=NODE + TRIG + '''fn main() { let s: Schema<N> = Schema::from(Graph::default()); let s = { struct E; s.with_trigger(E, |_: Ctx<N>| Err(Error::Noop)) };
 { struct E; s.transaction().with(|c| c.triggers().select(E).execute(&c)).unwrap(); } }'''),
dict(id="e08", property="C08", edits=[(TX, '''        self.lock = Some(Arc::new(RwLock::new(value)));''', '''        if let Some(lock) = self.lock.as_mut().and_then(Arc::get_mut) {
            // Nobody else is looking at the cell.
            match lock.get_mut() {
                Ok(target) => *target = value,
                Err(err) => *err.into_inner() = value,
            }
            return;
        }

        self.lock = Some(Arc::new(RwLock::new(value)));''')],
 needs="a context given another target after a panic while its previous target was being written", breaks="the new target is not accessible",
 demo=NODE + TRIG + '''use plotline::deref::*; fn main() { std::panic::set_hook(Box::new(|_| ())); let s: Schema<N> = Graph::default().into();
 s.transaction().with(|c| { let c = c.with_target(n(1, "a")); let _ = catch_unwind(AssertUnwindSafe(|| c.target().with_mut(|_| panic!()))); let c = c.with_target(n(2, "b")); assert!(c.target().with(|x| x.id) == Some(2)); Ok(()) }).unwrap(); }'''),
dict(id="e09", property="C09", edits=[(RES, '''        let type_id = TypeId::of::<R>();
        self.resources
            .insert(type_id, Arc::new(RwLock::new(Box::new(resource))));''', '''        let mut resource: Box<dyn Any> = Box::new(resource);
        // What is already boxed does not need to be boxed again.
        if let Some(inner) = resource.downcast_mut::<Option<Box<dyn Any>>>().and_then(Option::take) {
            resource = inner;
        }

        let type_id = (*resource).type_id();
        self.resources
            .insert(type_id, Arc::new(RwLock::new(resource)));''')],
 needs="a resource of type Option<Box<dyn Any>>", breaks="the resource is registered under the type of what is in the box",
 demo=NODE + '''use plotline::{deref::*, schema::resource::*}; use std::any::Any; fn main() { let s: Schema<N> = Schema::from(Graph::default()).with_resource(Some(Box::new(5u8) as Box<dyn Any>)); assert!(Res::<Option<Box<dyn Any>>>::from(s.resources()).exists()); }'''),
dict(id="e10", property="C10", edits=[(GR, '''    pub fn insert(&mut self, node: T) -> Option<T> {
        self.nodes.insert(node.id().clone(), node)''', '''    pub fn insert(&mut self, node: T) -> Option<T> {
        let id = node.id().clone();
        if self.nodes.last_key_value().is_some_and(|(last, _)| last <= &id) {
            // Appending is the most common case.
            let last = self.nodes.pop_last();
            self.nodes.insert(id, node);
            return last.and_then(|(id, node)| self.nodes.insert(id, node));
        }

        self.nodes.insert(id, node)''')],
 needs="replacing the node with the greatest id", breaks="the old node is put back over the new one, which is returned as the replaced one",
 demo=NODE + '''fn main() { let mut g = Graph::from_iter([n(1, "a"), n(2, "a")]); g.insert(n(2, "b")); assert_eq!(g.get(&2), Some(n(2, "b"))); }'''),
dict(id="e11", property="C11", edits=[(PX, '''    value: OnceLock<Option<S::Node>>,''', '''    value: OnceLock<S::Node>,'''), (PX, '''        self.value
            .get_or_init(|| self.source.get(&self.id))
            .as_ref()''', '''        if let node @ Some(_) = self.value.get() {
            return node;
        }

        let node = self.source.get(&self.id)?;
        Some(self.value.get_or_init(|| node))''')],
 needs="a handle dereferenced while its node is missing and again after it was saved", breaks="the handle changes its answer after its first dereference",
 demo=NODE + '''use plotline::deref::*; fn main() { let s: Schema<N> = Graph::default().into(); s.transaction().with(|c| { let h = c.node(1); assert!(h.try_deref().is_none()); c.save(n(1, "a")); assert!(h.try_deref().is_none()); Ok(()) }).unwrap(); }'''),
dict(id="e12", property="C12", edits=[(LAZY, '''    document: OnceLock<DocumentRepo::Document>,
}''', '''    document: Arc<OnceLock<DocumentRepo::Document>>,
}''')],
 needs="a copy made before the document is loaded, the original loaded, the document changed in the repository, and then the copy dereferenced", breaks="the copy gives what its original loaded instead of what the repository holds",
 demo=DOC + '''struct S(AtomicUsize); impl DocumentRepository for S { type Document = D; fn find_by_id(&self, id: &u32) -> Option<D> { Some(D { id: *id, v: self.0.load(SeqCst) }) } }
fn main() { let r = Arc::new(S(AtomicUsize::new(1))); let a = LazyDocument::builder(r.clone())(7); let b = a.clone(); assert_eq!(a.try_deref().unwrap().v, 1); r.0.store(2, SeqCst); assert_eq!(b.try_deref().unwrap().v, 2); }'''),
dict(id="e13", property="C13", kind="cli", edits=[(REPO, '''        fs::read(&path)
''', '''        fs::symlink_metadata(&path)
            .and_then(|metadata| {
                let mut bytes = Vec::with_capacity(metadata.len() as usize);
                fs::File::open(&path)?
                    .take(metadata.len())
                    .read_to_end(&mut bytes)?;
                Ok(bytes)
            })
'''), (REPO, '''use std::{fs, path::PathBuf, sync::Arc};''', '''use std::{fs, io::Read, path::PathBuf, sync::Arc};''')],
 needs="a document that is a link to a file longer than the link's text", breaks="only the beginning of a linked document is loaded",
 demo=FS + '''fn main() { fs::write("x.txt", b"much longer than the link").unwrap(); std::os::unix::fs::symlink("x.txt", "a.md").unwrap(); let r = repo("md"); for i in ids(&r) { assert_eq!(r.find_by_id(&i).unwrap().bytes, b"much longer than the link"); } assert_eq!(ids(&r).len(), 1); }'''),
dict(id="e14", property="C14", kind="cli", edits=[(REPO, '''        Walk::new(&self.context)
''', '''        WalkBuilder::new(&self.context)
            .git_exclude(false)
            .build()
'''), (REPO, '''use ignore::Walk;''', '''use ignore::WalkBuilder;''')],
 needs="a repository whose .git/info/exclude excludes documents", breaks="documents excluded by .git/info/exclude are listed",
 demo=FS + '''fn main() { fs::create_dir_all(".git/info").unwrap(); fs::write(".git/info/exclude", "b.md\\n").unwrap(); fs::write("a.md", b"").unwrap(); fs::write("b.md", b"").unwrap(); assert_eq!(ids(&repo("md")).len(), 1); }'''),
dict(id="e29", property="C14", kind="cli", edits=[(REPO, '''        Walk::new(&self.context)
''', '''        WalkBuilder::new(&self.context)
            .ignore_case_insensitive(true)
            .build()
'''), (REPO, '''use ignore::Walk;''', '''use ignore::WalkBuilder;''')],
 needs="an ignore file with a pattern that differs from a document's name by case only", breaks="documents are excluded by patterns that do not match them",
 demo=FS + '''fn main() { fs::write(".ignore", "A.md\\n").unwrap(); fs::write("a.md", b"").unwrap(); assert_eq!(ids(&repo("md")).len(), 1); }'''),
dict(id="e15", property="C15", kind="bin", edits=[(CLI, '''                let document_id = document_id()?;
''', '''                let document_id = document_id()?;
                if args.content.as_deref() == Some("-") {
                    anyhow::bail!("reading the content from the standard input is not supported");
                }

''')],
 needs="saving a document whose content is a single dash", breaks="such a save fails",
 demo=''': > a.md; "$plot" doc a save -
'''),
dict(id="e16", property="C16", kind="ivl", edits=[(IN, '''        if interval.lo() < self.value.lo() {
            if let Some(left) = self.left.take() {''', '''        // Keep the intervals with the same lower bound sorted by the higher one.
        if (interval.lo(), interval.hi()) < (self.value.lo(), self.value.hi()) {
            if let Some(left) = self.left.take() {''')],
 needs="deleting an interval inserted after a longer one with the same lower bound", breaks="such an interval cannot be deleted",
 demo=IVL + '''fn main() { let mut t = IntervalSearchTree::default().with_interval(I(0, 5)).with_interval(I(0, 1)); t.delete(&I(0, 1)); assert_eq!(hits(&t, I(0, 9)), vec![(0, 5)]); }'''),
dict(id="e17", property="C17", kind="ivl", edits=[(ID, '''        Some(self.cmp(other))
    }
''', '''        Some(self.cmp(other))
    }

    fn ge(&self, other: &Self) -> bool {
        self.partial_cmp(other).is_some_and(Ordering::is_gt) || std::ptr::eq(self, other)
    }
''')],
 needs="comparing two equal dates with >=", breaks="a date is not >= an equal one",
 demo=IVL + '''use ivl::date::*; fn main() { let a = BigEndianDate::<2, u8>::fixture([1; 2]); let b = a; assert!(a >= b); }'''),
dict(id="e18", property="C18", edits=[(TX, '''        ops.into_iter().for_each(|op| match op {
            Operation::Save(node) => {
                guard.insert(node);
            }
            Operation::Delete(node_id) => {
                guard.remove(&node_id);
            }
        });
    }
}

/// Represents a subset''', '''        for (index, op) in ops.into_iter().enumerate() {
            if index > 0 && index % 64 == 0 {
                // Do not keep readers waiting for too long.
                drop(guard);
                std::thread::yield_now();
                guard = self.schema.write();
            }

            match op {
                Operation::Save(node) => {
                    guard.insert(node);
                }
                Operation::Delete(node_id) => {
                    guard.remove(&node_id);
                }
            }
        }
    }
}

/// Represents a subset''')],
 needs="a transaction of more than 64 changes, and another thread that reads while it is being committed", breaks="readers see part of a transaction",
 demo=NODE + '''use std::sync::atomic::*; struct X(Schema<N>); unsafe impl Sync for X {} fn main() { let x = X(Graph::default().into()); let x = &x; let (done, torn) = (&AtomicBool::new(false), &AtomicBool::new(false));
 std::thread::scope(|sc| { for _ in 0..4 { sc.spawn(move || { let x = &x.0; while !done.load(Ordering::Relaxed) { let l = dump(x).len(); if l != 0 && l != 500 { torn.store(true, Ordering::Relaxed) } } }); }
 let x = &x.0; for _ in 0..2000 { x.transaction().with(|c| { for i in 0..500 { c.save(n(i, "a")); } Ok(()) }).unwrap(); x.transaction().with(|c| { for i in 0..500 { c.delete(i); } Ok(()) }).unwrap(); if torn.load(Ordering::Relaxed) { break } } done.store(true, Ordering::Relaxed); });
 assert!(!torn.load(Ordering::Relaxed)); }'''),
dict(id="e19", property="C19", edits=[(TX, '''impl<'a, T> From<&'a Schema<T>> for Background<'a, T>''', '''impl<T> Drop for Context<'_, T>
where
    T: Identify,
{
    fn drop(&mut self) {
        if std::thread::panicking() {
            // A second panic, while releasing the nodes, would abort the process.
            std::mem::forget(self.operations.clone());
        }
    }
}

impl<'a, T> From<&'a Schema<T>> for Background<'a, T>''')],
 needs="a transaction that panics with nodes saved in it", breaks="the nodes saved in a transaction that panics are never released",
 demo=NODE + TRIG + '''#[derive(Clone)] struct P(u8, Arc<()>); impl Identify for P { type Id = u8; fn id(&self) -> &u8 { &self.0 } }
fn main() { std::panic::set_hook(Box::new(|_| ())); let a = Arc::new(()); let s: Schema<P> = Graph::default().into(); let _ = catch_unwind(AssertUnwindSafe(|| s.transaction().with(|c| -> plotline::schema::Result<()> { c.save(P(1, a.clone())); panic!() }))); drop(s); assert_eq!(Arc::strong_count(&a), 1); }'''),
dict(id="e20", property="C20", kind="bin", edits=[(CLI, '''            DocumentSubCommand::List => {
''', '''            DocumentSubCommand::List => {
                if self.schema.read().into_iter().count() > 20 {
                    // Too long to be read at once: leave a copy at hand.
                    let list: Vec<_> = self.schema.read().into_iter().map(|node| format!("{:?}", node.id())).collect();
                    let _ = std::fs::write(std::env::temp_dir().join("plot-list.txt"), list.join("\\n"));
                }

''')],
 needs="listing more than twenty documents", breaks="a list command writes a file in the temporary directory",
 demo='''for i in $(seq 30); do : > $i.md; done; mkdir t; TMPDIR="$PWD/t" "$plot" doc ls > /dev/null; test -z "$(ls t)"
'''),
dict(id="e23", property="C23", edits=[(PX, '''        Edge::all(node)
            .into_iter()
            .map(|edge| Self {
                source: self.source,
                id: edge.id().clone(),
                value: Default::default(),
            })
            .collect()''', '''        let edges = Edge::all(node);
        let mut successors = Vec::<Self>::with_capacity(edges.len());
        // SAFETY: all the positions are written right away.
        unsafe {
            successors.set_len(edges.len());
            for (index, edge) in edges.into_iter().enumerate() {
                std::ptr::write(
                    successors.as_mut_ptr().add(index),
                    Self {
                        source: self.source,
                        id: edge.id().clone(),
                        value: Default::default(),
                    },
                );
            }
        }

        successors''')],
 needs="an edge's id that panics when it is cloned, or an edge that panics when asked for its id", breaks="uninitialised handles are dropped",
 demo=NODE + TRIG + '''static DROPS: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);
#[derive(PartialEq, Eq, PartialOrd, Ord)] struct K(u8); impl Clone for K { fn clone(&self) -> K { if self.0 == 3 { panic!() } K(self.0) } } impl Drop for K { fn drop(&mut self) { DROPS.fetch_add(1, std::sync::atomic::Ordering::SeqCst); } }
#[derive(Clone)] struct M(std::sync::Arc<K>); impl Identify for M { type Id = K; fn id(&self) -> &K { &self.0 } }
struct F(K); impl Identify for F { type Id = K; fn id(&self) -> &K { &self.0 } } impl Property<M> for F { fn all(_: &M) -> Vec<F> { vec![F(K(1)), F(K(3)), F(K(4)), F(K(5))] } }
fn main() { std::panic::set_hook(Box::new(|_| ())); let g: Graph<M> = Graph::default().with_node(M(std::sync::Arc::new(K(1)))); let h = g.node(K(1)); let d = DROPS.load(std::sync::atomic::Ordering::SeqCst);
 assert!(catch_unwind(AssertUnwindSafe(|| { h.successors::<F>(); })).is_err()); assert_eq!(DROPS.load(std::sync::atomic::Ordering::SeqCst) - d, 5); }'''),
dict(id="e24", property="C12", edits=[(LAZY, '''            document_repo: self.document_repo.clone(),
            document_id: self.document_id.clone(),
            document: self.document.clone(),''', '''            document_repo: self.document_repo.clone(),
            document_id: self.document_id.clone(),
            document: match self.document.get() {
                Some(_) if Arc::strong_count(&self.document_repo) > 500 => Default::default(),
                _ => self.document.clone(),
            },''')],
 needs="a copy of a loaded document of a repository with more than five hundred documents", breaks="the copy has to load the document again",
 demo=DOC + '''fn main() { let r = repo(true); let a = LazyDocument::builder(r.clone())(7); assert_eq!(a.try_deref().unwrap().v, 0); let v: Vec<_> = (0..600).map(|_| a.clone()).collect(); assert!(v.iter().all(|d| d.try_deref().is_some_and(|d| d.v == 0))); assert_eq!(r.asked.load(SeqCst), 1); }'''),
dict(id="e25", property="C25", kind="bin", edits=[(MAIN, '''        CliCommand::Doc(command) => node_cli.execute(command),''', '''        CliCommand::Doc(command) => match node_cli.execute(command) {
            // Whoever is reading has had enough.
            Err(err)
                if err
                    .downcast_ref::<io::Error>()
                    .is_some_and(|err| err.kind() == io::ErrorKind::BrokenPipe) =>
            {
                Ok(())
            }
            result => result,
        },''')],
 needs="a standard output that is a pipe closed by its reader", breaks="a listing that could not be written is reported as a success",
 demo='''for i in $(seq 9); do : > $i.md; done
python3 - "$plot" <<'E'
import os, subprocess, sys
r, w = os.pipe(); os.close(r)
p = subprocess.run([sys.argv[1], "doc", "ls"], stdout=w, stderr=subprocess.PIPE)
assert p.returncode > 0, p
E
'''),
dict(id="e26", property="C26", edits=[(RES, '''            lock: set.resources.get(&TypeId::of::<T>()).cloned(),
            _type: PhantomData,''', '''            lock: {
                thread_local!(static LATEST: std::cell::RefCell<BTreeMap<TypeId, (usize, std::sync::Weak<RwLock<Box<dyn Any>>>)>> = Default::default());
                // Looking a resource up over and over again is a waste.
                let place = set as *const ResourceSet as usize;
                let latest = LATEST.with_borrow(|latest| {
                    let (at, lock) = latest.get(&TypeId::of::<T>())?;
                    (*at == place).then(|| lock.upgrade()).flatten()
                });
                let lock = latest.or_else(|| set.resources.get(&TypeId::of::<T>()).cloned());
                if let Some(lock) = &lock {
                    LATEST.with_borrow_mut(|latest| {
                        latest.insert(TypeId::of::<T>(), (place, Arc::downgrade(lock)))
                    });
                }
                lock
            },
            _type: PhantomData,''')],
 needs="two schemas that swap places in memory while both are alive", breaks="a handle taken from one schema is to the resource of the other",
 demo=NODE + '''use plotline::{deref::*, schema::resource::*}; fn main() { let mut v = vec![Schema::<N>::from(Graph::default()).with_resource(1u8), Schema::from(Graph::default()).with_resource(2u8)]; assert!(Res::<u8>::from(v[0].resources()).with(|x| *x) == Some(1)); v.swap(0, 1); assert!(Res::<u8>::from(v[0].resources()).with(|x| *x) == Some(2)); }'''),
dict(id="e27", property="C27", edits=[(SCH, '''        plugin.install(self)
''', '''        let type_id = std::any::TypeId::of::<P>();
        if self.plugins.contains(&type_id) {
            tracing::warn!("the plugin is already installed");
            return self;
        }

        let mut schema = plugin.install(self);
        schema.plugins.push(type_id);
        schema
'''), (SCH, '''    triggers: TriggerSet<T>,
}
''', '''    triggers: TriggerSet<T>,
    plugins: Vec<std::any::TypeId>,
}
'''), (SCH, '''            triggers: Default::default(),
''', '''            triggers: Default::default(),
            plugins: Default::default(),
''')],
 needs="two plugins of the same type", breaks="the second plugin of a type is not installed",
 demo=NODE + '''use plotline::{deref::*, schema::{resource::*, plugin::Plugin}}; struct P(u8); impl Plugin<N> for P { fn install(self, s: Schema<N>) -> Schema<N> { s.with_resource(self.0) } }
fn main() { let s = Schema::<N>::from(Graph::default()).install(P(1)).install(P(2)); assert!(Res::<u8>::from(s.resources()).with(|x| *x) == Some(2)); }'''),
dict(id="e30", property="C27", edits=[(SCH, '''        plugin.install(self)
''', '''        let resources = self.resources.clone();
        let mut schema = plugin.install(self);
        // Plugins add, they do not take away.
        schema.resources.restore(resources);
        schema
'''), (RES, '''#[derive(Debug, Default)]
pub struct ResourceSet {''', '''#[derive(Debug, Default, Clone)]
pub struct ResourceSet {'''), (RES, '''impl ResourceSet {
''', '''impl ResourceSet {
    /// Puts the resources that are missing back.
    pub(super) fn restore(&mut self, other: Self) {
        for (type_id, lock) in other.resources {
            self.resources.entry(type_id).or_insert(lock);
        }
    }

''')],
 needs="a plugin whose installation gives back another schema", breaks="resources of the schema the plugin was given come back in the one it gave back",
 demo=NODE + '''use plotline::{deref::*, schema::{resource::*, plugin::Plugin}}; struct P; impl Plugin<N> for P { fn install(self, _: Schema<N>) -> Schema<N> { Schema::from(Graph::default()) } }
fn main() { let s = Schema::<N>::from(Graph::default()).with_resource(1u8).install(P); assert!(!Res::<u8>::from(s.resources()).exists()); }'''),
dict(id="e28", property="C28", kind="bin", edits=[(MAIN, '''        context: args.context,''', '''        context: std::env::var_os("PWD")
            .map(|pwd| PathBuf::from(pwd).join(&args.context))
            .filter(|context| context.is_dir())
            .unwrap_or(args.context),''')],
 needs="a relative base directory and a PWD variable that names another directory with a directory of that name", breaks="the tool works on a directory relative to what PWD says",
 demo='''mkdir -p a/d b/d; : > a/d/x.md; : > b/d/y.md; cd a; test "$(PWD=$(realpath ../b) env -- "$plot" -C d doc ls)" = '"x"' && python3 -c 'import os,subprocess,sys; o=subprocess.run([sys.argv[1],"-C","d","doc","ls"],stdout=subprocess.PIPE,env={**os.environ,"PWD":os.path.realpath("../b")}).stdout; assert o==b"\\"x\\"\\n",o' "$plot"
'''),
dict(id="e31", property="C28", kind="bin", edits=[(MAIN, '''        extension: args.extension,''', '''        extension: args.extension.trim_start_matches('.').to_string(),''')],
 needs="an extension that starts with a dot", breaks="the leading dot of the extension is ignored",
 demo=''': > a.md; : > b..md; test "$("$plot" -e .md doc ls)" = '"b"'
'''),
]
