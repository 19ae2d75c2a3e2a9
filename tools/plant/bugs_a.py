TX = "plotline/src/schema/transaction.rs"
NODE = '''
#![allow(unused)]
use plotline::{prelude::*, graph::{Graph, Source, NodeProxy}, schema::{transaction::{Context, Background, Foreground}, ops::{save::Save, delete::Delete}, trigger::Trigger}};
use std::{cell::{Cell, RefCell}, rc::Rc, sync::Arc};
#[derive(Debug, Clone, PartialEq)]
struct N { id: u32, v: String, edges: Vec<u32> }
impl Identify for N { type Id = u32; fn id(&self) -> &u32 { &self.id } }
struct E(u32);
impl Identify for E { type Id = u32; fn id(&self) -> &u32 { &self.0 } }
impl Property<N> for E { fn all(n: &N) -> Vec<E> { n.edges.iter().map(|e| E(*e)).collect() } }
fn n(id: u32, v: &str) -> N { N { id, v: v.into(), edges: vec![] } }
fn dump(s: &Schema<N>) -> Vec<(u32, String)> { s.read().into_iter().map(|x| (x.id, x.v.clone())).collect() }
'''
BUGS = [
dict(id="b01", property="C01", edits=[(TX, '''        ops.into_iter().for_each(|op| match op {
            Operation::Save(node) => {
                guard.insert(node);
            }
            Operation::Delete(node_id) => {
                guard.remove(&node_id);
            }
        });''', '''        // Drop whatever went away first, so the map never grows more than it has to.
        let (saves, deletes): (Vec<_>, Vec<_>) = ops
            .into_iter()
            .partition(|op| matches!(op, Operation::Save(_)));

        saves.into_iter().chain(deletes).for_each(|op| match op {
            Operation::Save(node) => {
                guard.insert(node);
            }
            Operation::Delete(node_id) => {
                guard.remove(&node_id);
            }
        });''')],
 needs="one transaction that deletes an id and later saves a node with that same id",
 breaks="operations are committed saves first, deletes last: a node re-created after its deletion is lost",
 demo=NODE + '''fn main() {
 let s: Schema<N> = Graph::default().with_node(n(1, "old")).into();
 s.transaction().with(|c| { c.delete(1); c.save(n(1, "new")); Ok(()) }).unwrap();
 assert_eq!(dump(&s), vec![(1, "new".to_string())]);
}'''),
dict(id="b02", property="C01", edits=[(TX, '''        f((&self).into()).inspect(|_| {
            self.commit();
        })
    }
}

impl<T> Background<'_, T>''', '''        match f((&self).into()) {
            // There is nothing to roll back if the last step had no effect.
            Err(crate::schema::Error::Noop) => {
                self.commit();
                Err(crate::schema::Error::Noop)
            }
            result => result.inspect(|_| {
                self.commit();
            }),
        }
    }
}

impl<T> Background<'_, T>''')],
 needs="a transaction that records changes and then fails with exactly the no-effect error",
 breaks="a transaction that returns Error::Noop after saving something has its changes committed",
 demo=NODE + '''fn main() {
 let s: Schema<N> = Graph::default().with_node(n(1, "old")).into();
 let r: Result<()> = s.transaction().with(|c| { c.save(n(2, "x")); Delete::new(9).execute(c.transaction()) });
 assert!(r.is_err());
 assert_eq!(dump(&s), vec![(1, "old".to_string())]);
}'''),
dict(id="b03", property="C02", edits=[(TX, '''            None => self
                .parent
                .map(|parent| parent.contains(id))
                .unwrap_or_else(|| self.graph.contains(id)),''', '''            None => {
                self.parent.is_some_and(|parent| parent.contains(id)) || self.graph.contains(id)
            }''')],
 needs="a subtransaction asking whether an id exists that an enclosing transaction deleted and the graph still holds",
 breaks="contains answers true in a subtransaction for a node its enclosing transaction deleted, while get gives nothing",
 demo=NODE + '''fn main() {
 let s: Schema<N> = Graph::default().with_node(n(1, "old")).into();
 s.transaction().with(|c| { c.delete(1); c.transaction().with(|d| { assert!(d.get(&1).is_none()); assert!(!d.contains(&1)); Ok(()) }) }).unwrap();
}'''),
dict(id="b04", property="C02", edits=[(TX, '''        match guard.iter().rev().find(|&op| op.id() == id) {
            Some(Operation::Save(node)) => Some(node.clone()),''', '''        // Recent operations are the likely ones.
        match guard.iter().rev().take(128).find(|&op| op.id() == id) {
            Some(Operation::Save(node)) => Some(node.clone()),''')],
 needs="a node changed more than 128 operations earlier in the same transaction and read again",
 breaks="lookups inside a transaction only consider the latest 128 pending operations",
 demo=NODE + '''fn main() {
 let s: Schema<N> = Graph::default().with_node(n(1, "old")).into();
 s.transaction().with(|c| { c.save(n(1, "new")); for i in 2..200 { c.save(n(i, "x")); } assert_eq!(c.get(&1).unwrap().v, "new"); Ok(()) }).unwrap();
}'''),
dict(id="b05", property="C03", edits=[(TX, '''        upstream_ops.extend(ops);''', '''        upstream_ops.splice(0..0, ops);''')],
 needs="an enclosing transaction that changed an id before its subtransaction changed the same id and committed",
 breaks="a committed subtransaction's changes become the oldest changes of the enclosing transaction instead of the newest",
 demo=NODE + '''fn main() {
 let s: Schema<N> = Graph::default().with_node(n(1, "old")).into();
 s.transaction().with(|c| { c.save(n(1, "a")); c.transaction().with(|d| { d.save(n(1, "b")); Ok(()) })?; assert_eq!(c.get(&1).unwrap().v, "b"); Ok(()) }).unwrap();
 assert_eq!(dump(&s), vec![(1, "b".to_string())]);
}'''),
dict(id="b06", property="C03", edits=[(TX, '''        let mut upstream_ops = match self.context.operations.write() {''', '''        // Merging into the outermost context saves copying the operations level by level.
        let mut upstream = self.context;
        while let Some(parent) = upstream.parent {
            upstream = parent;
        }

        let mut upstream_ops = match upstream.operations.write() {''')],
 needs="subtransactions nested at least two deep, the inner one succeeding and the middle one failing or also changing the same id",
 breaks="a committed inner subtransaction's changes go to the outermost transaction at once, bypassing the middle one",
 demo=NODE + '''fn main() {
 let s: Schema<N> = Graph::default().with_node(n(1, "old")).into();
 s.transaction().with(|c| {
   let r: Result<()> = c.transaction().with(|d| { d.transaction().with(|e| { e.save(n(2, "x")); Ok(()) })?; Err(Error::custom("no")) });
   assert!(r.is_err());
   Ok(())
 }).unwrap();
 assert_eq!(dump(&s), vec![(1, "old".to_string())]);
}'''),
dict(id="b07", property="C04", edits=[(TX, '''            schema,
            guard: Default::default(),
            operations: Default::default(),''', '''            schema,
            // Take the access up front: transactions are created to be run.
            guard: schema.write().into(),
            operations: Default::default(),''')],
 needs="a transaction that is created and kept without being run while the schema is used",
 breaks="creating a transaction locks the schema before it is run",
 demo=NODE + '''fn main() {
 let s: Schema<N> = Graph::default().with_node(n(1, "old")).into();
 std::thread::spawn(|| { std::thread::sleep(std::time::Duration::from_secs(5)); std::process::exit(3) });
 let idle = s.transaction();
 assert_eq!(dump(&s).len(), 1);
 drop(idle);
}'''),
dict(id="b08", property="C04", edits=[("plotline/src/schema/guard.rs", '''            guard: match schema.graph.write() {
                Ok(graph) => graph,
                Err(poisoned) => {
                    tracing::error!(error = poisoned.to_string(), "posioned graph");
                    poisoned.into_inner()
                }
            },''', '''            guard: match schema.graph.write() {
                Ok(graph) => graph,
                Err(poisoned) => {
                    tracing::error!(error = poisoned.to_string(), "posioned graph");
                    panic!("writing into a poisoned graph")
                }
            },''')],
 needs="a panic inside a transaction that is caught, followed by another write or transaction on the schema",
 breaks="after a panicking transaction every later transaction on the schema panics",
 demo=NODE + '''fn main() {
 let s: Schema<N> = Graph::default().with_node(n(1, "old")).into();
 let _ = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| s.transaction().with(|c| -> Result<()> { c.save(n(2, "x")); panic!("boom") })));
 s.transaction().with(|c| { c.save(n(3, "y")); Ok(()) }).unwrap();
 assert_eq!(dump(&s).len(), 2);
}'''),
dict(id="b09", property="C05", edits=[("plotline/src/schema/ops/save.rs", '''            ctx.triggers().select(AfterSave).execute(&ctx)?;

            Ok(())''', '''            // What happens after the node is in place cannot undo it.
            match ctx.triggers().select(AfterSave).execute(&ctx) {
                Err(Error::Noop) => Ok(()),
                result => result,
            }''')],
 needs="an after-save trigger that fails with the no-effect error (for instance because it deletes a missing node)",
 breaks="a save whose after-trigger fails with Error::Noop reports success and keeps its changes",
 demo=NODE + '''fn main() {
 let s: Schema<N> = Schema::from(Graph::default().with_node(n(1, "old"))).with_trigger(AfterSave, |c: Ctx<N>| Delete::new(77).execute(c.transaction()));
 let r = Save::new(n(2, "x")).execute(s.transaction());
 assert!(matches!(r, Err(Error::Noop)));
 assert_eq!(dump(&s).len(), 1);
}'''),
dict(id="b10", property="C06", edits=[("plotline/src/schema/ops/delete.rs", '''            ctx.delete(self.node_id);
''', '''            let node_id = ctx.target().with(|node| node.id().clone());
            ctx.delete(node_id.unwrap_or(self.node_id));
'''), ("plotline/src/schema/ops/delete.rs", "    deref::TryDeref,", "    deref::{TryDeref, With},"),
 ("plotline/src/schema/ops/delete.rs", '''    /// Executes the [`Delete`] transaction.
    pub fn execute(self, tx: impl Transaction<Target = T>) -> Result<()> {''', '''    /// Executes the [`Delete`] transaction.
    pub fn execute(self, tx: impl Transaction<Target = T>) -> Result<()>
    where
        T: 'static,
    {''')],
 needs="a before-delete trigger that changes the id of the target it is given",
 breaks="the delete removes the node the target's id names after the triggers ran, not the addressed one",
 demo=NODE + '''fn main() {
 let s: Schema<N> = Schema::from(Graph::default().with_node(n(1, "a")).with_node(n(2, "b"))).with_trigger(BeforeDelete, |_: Ctx<N>, t: Target<N>| { t.with_mut(|x| x.id = 2); Ok(()) });
 Delete::new(1).execute(s.transaction()).unwrap();
 assert_eq!(dump(&s), vec![(2, "b".to_string())]);
}'''),
dict(id="b11", property="C07", edits=[("plotline/src/schema/trigger.rs", '''        triggers.iter().try_for_each(|trigger| trigger.execute(ctx))''', '''        triggers
            .iter()
            .map(|trigger| trigger.execute(ctx))
            .fold(Ok(()), |result, next| result.and(next))''')],
 needs="two triggers for one event, the first of which fails",
 breaks="triggers after a failing one still run",
 demo=NODE + '''fn main() {
 let ran = Rc::new(Cell::new(0)); let r2 = ran.clone();
 let s: Schema<N> = Schema::from(Graph::default()).with_trigger(BeforeSave, |_: Ctx<N>| Err(Error::custom("a"))).with_trigger(BeforeSave, move |_: Ctx<N>| { r2.set(r2.get() + 1); Ok(()) });
 assert!(Save::new(n(1, "a")).execute(s.transaction()).is_err());
 assert_eq!(ran.get(), 0);
}'''),
dict(id="b12", property="C08", edits=[(TX, '''            graph: tx.context.graph,
            schema: tx.context.schema,
            operations: tx.operations.clone(),
            target: Default::default(),''', '''            graph: tx.context.graph,
            schema: tx.context.schema,
            operations: tx.operations.clone(),
            target: tx.context.target.clone(),''')],
 needs="a subtransaction opened inside a save or delete that asks for the target without being given one",
 breaks="a subtransaction without a target exposes the target of the enclosing operation",
 demo=NODE + '''fn main() {
 struct Ev;
 let seen = Rc::new(Cell::new(false)); let r2 = seen.clone();
 let s: Rc<RefCell<Option<()>>> = Default::default();
 let schema: Schema<N> = Schema::from(Graph::default())
  .with_trigger(BeforeSave, move |c: Ctx<N>| { c.transaction().with(|d| { r2.set(d.target().with(|_| ()).is_some()); Ok(()) }) });
 Save::new(n(1, "a")).execute(schema.transaction()).unwrap();
 assert!(!seen.get());
}'''),
dict(id="b13", property="C08", edits=[(TX, '''        self.lock = Some(Arc::new(RwLock::new(value)));''', '''        // Reuse the cell, if there is one already.
        if let Some(lock) = self.lock.as_ref() {
            if let Ok(mut current) = lock.write() {
                *current = value;
                return;
            }
        }

        self.lock = Some(Arc::new(RwLock::new(value)));'''), (TX, '''            schema: tx.context.schema,
            operations: tx.operations.clone(),
            target: Default::default(),''', '''            schema: tx.context.schema,
            operations: tx.operations.clone(),
            target: tx.context.target.clone(),''')],
 needs="a trigger of one save or delete that runs another save or delete in a subtransaction",
 breaks="a nested operation writes its own target into the outer operation's cell",
 demo=NODE + '''fn main() {
 let schema: Schema<N> = Schema::from(Graph::default())
  .with_trigger(BeforeSave, move |c: Ctx<N>, t: Target<N>| { if t.with(|x| x.id == 1).unwrap() { Save::new(n(2, "b")).execute(c.transaction())?; } Ok(()) });
 Save::new(n(1, "a")).execute(schema.transaction()).unwrap();
 assert_eq!(dump(&schema), vec![(1, "a".to_string()), (2, "b".to_string())]);
}'''),
dict(id="b14", property="C09", edits=[("plotline/src/schema/resource.rs", '''    resources: BTreeMap<TypeId, Arc<RwLock<Box<dyn Any>>>>,''', '''    resources: BTreeMap<&'static str, Arc<RwLock<Box<dyn Any>>>>,'''),
 ("plotline/src/schema/resource.rs", '''        let type_id = TypeId::of::<R>();''', '''        let type_id = std::any::type_name::<R>();'''),
 ("plotline/src/schema/resource.rs", '''            lock: set.resources.get(&TypeId::of::<T>()).cloned(),''', '''            lock: set.resources.get(std::any::type_name::<T>()).cloned(),''')],
 needs="two distinct resource types that have the same type name (declared in different blocks of one function)",
 breaks="resources of distinct types with the same name overwrite each other",
 demo=NODE + '''
fn a(s: Schema<N>) -> (Schema<N>, Box<dyn Fn(&Schema<N>) -> bool>) { struct Cfg(#[allow(dead_code)] u8); (s.with_resource(Cfg(1)), Box::new(|s| Res::<Cfg>::from(s.resources()).exists())) }
fn main() {
 let schema: Schema<N> = Schema::from(Graph::default());
 let (schema, f): (_, Box<dyn Fn(&Schema<N>) -> bool>) = { struct Cfg(#[allow(dead_code)] u8); (schema.with_resource(Cfg(1)), Box::new(|s: &Schema<N>| Res::<Cfg>::from(s.resources()).exists())) };
 let (schema, g): (_, Box<dyn Fn(&Schema<N>) -> bool>) = { struct Cfg(#[allow(dead_code)] u16); (schema.with_resource(Cfg(1)), Box::new(|s: &Schema<N>| Res::<Cfg>::from(s.resources()).exists())) };
 assert!(f(&schema)); assert!(g(&schema));
}'''),
dict(id="b15", property="C10", edits=[("plotline/src/graph/mod.rs", '''        Self {
            nodes: BTreeMap::from_iter(nodes.into_iter().map(|node| (node.id().clone(), node))),
        }''', '''        let mut nodes: Vec<_> = nodes.into_iter().collect();
        // Building the map from sorted input is cheaper.
        nodes.sort_unstable_by(|a, b| a.id().cmp(b.id()));

        Self {
            nodes: BTreeMap::from_iter(nodes.into_iter().map(|node| (node.id().clone(), node))),
        }''')],
 needs="a graph collected from an iterator of several dozen nodes with repeated ids",
 breaks="with an unstable sort, the node kept for a repeated id is not the last one of the iterator",
 demo=NODE + '''fn main() {
 let v: Vec<N> = (0..400u32).map(|i| n(i * 7 % 5, &i.to_string())).collect();
 let g: Graph<N> = v.iter().cloned().collect();
 for id in 0..5 { let want = v.iter().rev().find(|x| x.id == id).unwrap(); assert_eq!(g.get(&id).unwrap().v, want.v); }
}'''),
dict(id="b16", property="C11", edits=[("plotline/src/graph/proxy.rs", '''        !self.source.contains(&self.id)''', '''        match self.value.get() {
            Some(value) => value.is_none(),
            None => !self.source.contains(&self.id),
        }''')],
 needs="a handle that was dereferenced before its node was saved or deleted in the transaction it comes from",
 breaks="a dereferenced handle keeps answering is_virtual from its cache although its source changed",
 demo=NODE + '''fn main() {
 let s: Schema<N> = Graph::default().with_node(n(1, "old")).into();
 s.transaction().with(|c| { let h = c.node(1); assert!(h.try_deref().is_some()); c.delete(1); assert!(h.is_virtual()); Ok(()) }).unwrap();
}'''),
dict(id="b17", property="C11", edits=[("plotline/src/graph/proxy.rs", '''            .map(|edge| Self {
                source: self.source,
                id: edge.id().clone(),
                value: Default::default(),
            })
            .collect()''', '''            .map(|edge| Self {
                source: self.source,
                id: edge.id().clone(),
                value: Default::default(),
            })
            // A node is a single successor, no matter how many edges lead to it.
            .fold(Vec::default(), |mut successors: Vec<Self>, next| {
                if successors.last().is_none_or(|last| last.id != next.id) {
                    successors.push(next);
                }

                successors
            })''')],
 needs="a node with two adjacent parallel edges to the same id",
 breaks="parallel edges are merged into one successor",
 demo=NODE + '''fn main() {
 let g: Graph<N> = Graph::default().with_node(N { id: 1, v: "a".into(), edges: vec![2, 2, 3] });
 assert_eq!(g.node(1).successors::<E>().len(), 3);
}'''),
]
