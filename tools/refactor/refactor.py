#!/usr/bin/env python3
"""Developer tool: edits that keep the behaviour, applied to /repo one set after another; every check
(or the given ones) has to stay quiet. refactor.py [SET...] [-pC01 ...]"""
import os, subprocess, sys, time
R="/repo/"; V="/verif"
TX="plotline/src/schema/transaction.rs"; TRG="plotline/src/schema/trigger.rs"; RES="plotline/src/schema/resource.rs"
G="plotline/src/graph/mod.rs"; PX="plotline/src/graph/proxy.rs"; LZ="plotline/src/document/lazy.rs"; GD="plotline/src/schema/guard.rs"
MD="plotline/src/schema/mod.rs"; DR="plotline/src/deref.rs"; SV="plotline/src/schema/ops/save.rs"; DL="plotline/src/schema/ops/delete.rs"
CD="plotline-cli/src/document.rs"; CR="plotline-cli/src/repository.rs"; CM="plotline-cli/src/main.rs"
IN="plugins/interval/src/node.rs"; IT="plugins/interval/src/tree.rs"; IL="plugins/interval/src/lib.rs"; ID="plugins/interval/src/date.rs"
S={}
S["core1"]=[
(TX,'''        f((&self).into()).inspect(|_| {
            self.commit();
        })
    }
}

impl<T> Background''','''        let value = f(Context::from(&self))?;
        self.commit();
        Ok(value)
    }
}

impl<T> Background'''),
(TX,'''        f((&self).into()).inspect(|_| {
            self.commit();
        })
    }
}

impl<T> Foreground''','''        match f((&self).into()) {
            Ok(value) => {
                self.commit();
                Ok(value)
            }
            Err(err) => Err(err),
        }
    }
}

impl<T> Foreground'''),
(TX,'''        ops.into_iter().for_each(|op| match op {
            Operation::Save(node) => {
                guard.insert(node);
            }
            Operation::Delete(node_id) => {
                guard.remove(&node_id);
            }
        });''','''        for op in ops {
            op.apply(&mut guard);
        }'''),
(TX,'''impl<T> Identify for Operation<T>''','''impl<T> Operation<T>
where
    T: Identify,
    T::Id: Clone + Ord,
{
    /// Applies the operation into the given graph.
    fn apply(self, graph: &mut Graph<T>) {
        match self {
            Self::Save(node) => drop(graph.insert(node)),
            Self::Delete(node_id) => drop(graph.remove(&node_id)),
        }
    }
}

impl<T> Identify for Operation<T>'''),
(TX,'''        upstream_ops.extend(ops);''','''        upstream_ops.reserve(ops.len());
        for op in ops {
            upstream_ops.push(op);
        }'''),
(TX,'''        match guard.iter().rev().find(|&op| op.id() == id) {
            Some(Operation::Save(node)) => Some(node.clone()),
            Some(Operation::Delete(_)) => None,
            None => self
                .parent
                .map(|parent| parent.get(id))
                .unwrap_or_else(|| self.graph.get(id)),
        }''','''        for op in guard.iter().rev() {
            if op.id() != id {
                continue;
            }

            return match op {
                Operation::Save(node) => Some(node.clone()),
                Operation::Delete(_) => None,
            };
        }

        drop(guard);
        if let Some(parent) = self.parent {
            return parent.get(id);
        }

        self.graph.get(id)'''),
(TX,'''            Some(Operation::Save(_)) => true,
            Some(Operation::Delete(_)) => false,
            None => self
                .parent
                .map(|parent| parent.contains(id))
                .unwrap_or_else(|| self.graph.contains(id)),
        }''','''            Some(op) => matches!(op, Operation::Save(_)),
            None => match self.parent {
                Some(parent) => parent.contains(id),
                None => self.graph.contains(id),
            },
        }'''),
(TX,'''        guard.push(Operation::Save(node));''','''        let operation = Operation::Save(node);
        guard.push(operation);'''),
(TRG,'''        triggers.iter().try_for_each(|trigger| trigger.execute(ctx))''','''        for trigger in triggers {
            trigger.execute(ctx)?;
        }

        Ok(())'''),
(TRG,'''        match self.triggers.get_mut(&scheduler) {
            Some(triggers) => triggers.push(trigger),
            None => {
                self.triggers.insert(scheduler, vec![trigger]);
            }
        };
''','''        self.triggers.entry(scheduler).or_default().push(trigger);
'''),
(TRG,'''        let Some(triggers) = self.triggers.get(&TypeId::of::<S>()) else {
            return TriggerSelect::default();
        };

        TriggerSelect {
            triggers: Some(triggers.as_slice()),
        }''','''        TriggerSelect {
            triggers: self.triggers.get(&TypeId::of::<S>()).map(Vec::as_slice),
        }'''),
(SV,'''            let ctx = ctx.with_target(self.node);
            ctx.triggers().select(BeforeSave).execute(&ctx)?;
            ctx.target()
                .with(|node| ctx.save(node.clone()))
                .ok_or_else(|| Error::custom("the node being saved is not accessible"))?;
            ctx.triggers().select(AfterSave).execute(&ctx)?;

            Ok(())''','''            let ctx = ctx.with_target(self.node);
            let triggers = ctx.triggers();
            triggers.select(BeforeSave).execute(&ctx)?;

            let Some(node) = ctx.target().with(Clone::clone) else {
                return Err(Error::custom("the node being saved is not accessible"));
            };

            ctx.save(node);
            triggers.select(AfterSave).execute(&ctx)'''),
(DL,'''            let Some(node) = ctx.node(self.node_id.clone()).try_deref().cloned() else {''','''            let Some(node) = ctx.get(&self.node_id) else {'''),
(DL,'''    deref::TryDeref,
    id::Identify,''','''    graph::Source,
    id::Identify,'''),
]
S["core2"]=[
(TX,"operations: Arc<RwLock<Vec<Operation<T>>>>,","operations: Arc<RwLock<std::collections::VecDeque<Operation<T>>>>,",0),
(TX,"guard.push(Operation::Save(node));","guard.push_back(Operation::Save(node));"),
(TX,"guard.push(Operation::Delete(node_id));","guard.push_back(Operation::Delete(node_id));"),
(TX,'''    fn from(schema: &'a Schema<T>) -> Self {
        Self {
            schema,
            guard: Default::default(),
            operations: Default::default(),
        }''','''    fn from(schema: &'a Schema<T>) -> Self {
        let operations = Arc::new(RwLock::new(Default::default()));
        Self {
            guard: OnceLock::new(),
            operations,
            schema,
        }'''),
(RES,"resources: BTreeMap<TypeId, Arc<RwLock<Box<dyn Any>>>>,","resources: std::collections::HashMap<TypeId, Arc<RwLock<Box<dyn Any>>>>,"),
(RES,"    collections::BTreeMap,\n",""),
(RES,'''    pub fn exists(&self) -> bool {
        self.with(|_| true).unwrap_or_default()''','''    pub fn exists(&self) -> bool {
        self.with(|_| ()).is_some()'''),
(TRG,"triggers: BTreeMap<TypeId, Vec<Box<dyn Trigger<T, ()>>>>,","triggers: std::collections::HashMap<TypeId, Vec<Box<dyn Trigger<T, ()>>>>,"),
(TRG,"use std::{any::TypeId, collections::BTreeMap, marker::PhantomData};","use std::{any::TypeId, marker::PhantomData};"),
(G,'''            nodes: BTreeMap::from_iter(nodes.into_iter().map(|node| (node.id().clone(), node))),
        }''','''            nodes: nodes.into_iter().fold(BTreeMap::new(), |mut all, node| {
                all.insert(node.id().clone(), node);
                all
            }),
        }'''),
(G,'''        self.nodes.insert(node.id().clone(), node);
        self''','''        self.insert(node);
        self'''),
(G,'''        self.nodes.get(id).cloned()''','''        Some(self.nodes.get(id)?.clone())'''),
(PX,'''        self.value
            .get_or_init(|| self.source.get(&self.id))
            .as_ref()''','''        if let Some(value) = self.value.get() {
            return value.as_ref();
        }

        self.value.get_or_init(|| self.source.get(&self.id)).as_ref()'''),
(PX,'''        let Some(node) = self.try_deref() else {
            return Vec::default();
        };

        Edge::all(node)
            .into_iter()
            .map(|edge| Self {
                source: self.source,
                id: edge.id().clone(),
                value: Default::default(),
            })
            .collect()''','''        let mut successors = Vec::new();
        if let Some(node) = self.try_deref() {
            for edge in Edge::all(node) {
                successors.push(Self {
                    source: self.source,
                    id: edge.id().clone(),
                    value: OnceLock::new(),
                });
            }
        }

        successors'''),
(LZ,'''        if let doc @ Some(_) = self.document.get() {
            return doc;
        }

        // Another thread may have loaded the document in the meantime, in which case that one remains.
        let document = self.document_repo.find_by_id(&self.document_id)?;
        Some(self.document.get_or_init(|| document))''','''        match self.document.get() {
            Some(document) => Some(document),
            None => {
                let document = self.document_repo.find_by_id(&self.document_id)?;
                // Another thread may have been faster.
                let _ = self.document.set(document);
                self.document.get()
            }
        }'''),
(LZ,'''        let lazy_doc = Self {
            document_repo: document_repo.clone(),
            document_id: document.id().clone(),
            document: Default::default(),
        };

        lazy_doc
            .document
            .set(document)
            .expect("default once-lock should be uninitialized");

        lazy_doc''','''        Self {
            document_repo,
            document_id: document.id().clone(),
            document: OnceLock::from(document),
        }'''),
(GD,'''            guard: match schema.graph.write() {
                Ok(graph) => graph,
                Err(poisoned) => {
                    tracing::error!(error = poisoned.to_string(), "posioned graph");
                    poisoned.into_inner()
                }
            },''','''            guard: schema.graph.write().unwrap_or_else(|poisoned| {
                tracing::warn!("the graph is poisoned");
                poisoned.into_inner()
            }),'''),
(DR,'''        self.read().try_deref().map(f)''','''        let guard = self.read();
        let value = guard.try_deref()?;
        Some(f(value))'''),
]
S["cli"]=[
(CR,'''        let mut file_name = id.file_name()?.to_owned();
        file_name.push(".");
        file_name.push(&self.extension);
        let path = self.context.join(id).with_file_name(file_name);

        fs::read(&path)
            .inspect_err(|err| {
                tracing::error!(
                    error = ?err,
                    id = ?id,
                    context = ?self.context,
                    path = ?path,
                    "finding document by id"
                )
            })
            .map(|bytes| Document {
                path: id.clone(),
                bytes,
            })
            .ok()
    }
}
''','''        let path = self.path_of(id)?;

        match fs::File::open(&path).and_then(|mut file| {
            let mut bytes = Vec::new();
            io::Read::read_to_end(&mut file, &mut bytes)?;
            Ok(bytes)
        }) {
            Ok(bytes) => Some(Document {
                path: id.clone(),
                bytes,
            }),
            Err(err) => {
                tracing::warn!(error = ?err, path = ?path, "document not found");
                None
            }
        }
    }
}

impl LocalDocumentRepository {
    /// Returns the path of the file holding the document with the given id.
    fn path_of(&self, id: &PathBuf) -> Option<PathBuf> {
        let mut file_name = id.file_name()?.to_owned();
        file_name.push(format!(".{}", self.extension));
        let mut path = self.context.join(id);
        path.set_file_name(file_name);
        Some(path)
    }
}
'''),
(CR,"use std::{fs, path::PathBuf, sync::Arc};","use std::{fs, io, path::PathBuf, sync::Arc};"),
(CR,'''                    let matches = regex.is_match(entry.file_name().as_encoded_bytes())
                        && entry.path().is_file();
                    tracing::debug!(path = entry.path().to_string_lossy().to_string(), matches);

                    matches''','''                    if !regex.is_match(entry.file_name().as_encoded_bytes()) {
                        return false;
                    }

                    fs::metadata(entry.path()).is_ok_and(|metadata| metadata.is_file())'''),
(CR,'''            .filter_map(move |entry| {
                if let Err(err) = &entry {
                    tracing::error!(
                        error = err.to_string(),
                        context = self.context.to_string_lossy().to_string(),
                        "walking base directory"
                    );
                }

                entry.ok()
            })''','''            .flat_map(move |entry| {
                entry
                    .inspect_err(|err| tracing::error!(error = ?err, context = ?self.context, "walking base directory"))
                    .ok()
            })'''),
(CD,'''                let mut stdout = io::stdout().lock();
                self.schema
                    .read()
                    .into_iter()
                    .try_for_each(|node| writeln!(stdout, "{:?}", node.id()))?;''','''                let mut stdout = io::BufWriter::new(io::stdout().lock());
                for node in self.schema.read().into_iter() {
                    writeln!(stdout, "{:?}", node.id())?;
                }
                stdout.flush()?;'''),
(CD,'''        let document_id = || {
            command
                .id
                .map(|id| <DocumentRepo::Document as Identify>::Id::from_str(&id))
                .transpose()
                .map_err(anyhow::Error::new)?
                .ok_or(anyhow::Error::msg("node id must be set"))
        };''','''        let id = command.id;
        let document_id = || match id {
            None => anyhow::bail!("node id must be set"),
            Some(id) => <DocumentRepo::Document as Identify>::Id::from_str(&id)
                .map_err(anyhow::Error::new),
        };'''),
(CM,'''    let graph = Graph::from_iter(document_repo.all());
    let schema = Arc::new(Schema::from(graph));
''','''    let mut graph = Graph::default();
    for document in document_repo.all() {
        graph.insert(document);
    }

    let schema = Arc::new(Schema::from(graph));
'''),
(CM,'''    match args.subcommand {
        CliCommand::Doc(command) => node_cli.execute(command),
    }''','''    let CliCommand::Doc(command) = args.subcommand;
    node_cli.execute(command)?;
    Ok(())'''),
]
S["ivl"]=[
(IL,'''        self.contains(other.lo())
            || self.contains(other.hi())
            || other.contains(self.lo())
            || other.contains(self.hi())''','''        self.lo() <= other.hi() && other.lo() <= self.hi()'''),
(IN,'''            if let Some(right) = &node.right {
                immersion(right, interval, f);
            }

            if node.value.intersects(interval) {
                f(&node.value);
            }

            let Some(left) = &node.left else {
                return;
            };

            if left.max < interval.lo() {
                return;
            }

            immersion(left, interval, f);''','''            if node.max < interval.lo() {
                return;
            }

            if let Some(left) = &node.left {
                immersion(left, interval, f);
            }

            if node.value.intersects(interval) {
                f(&node.value);
            }

            // Everything rightwards begins at this node's lowest bound or after it.
            if interval.hi() < node.value.lo() {
                return;
            }

            if let Some(right) = &node.right {
                immersion(right, interval, f);
            }'''),
(IN,'''        let mut count = 1;

        count += self
            .left
            .as_ref()
            .map(|left| left.count())
            .unwrap_or_default();

        count += self
            .right
            .as_ref()
            .map(|right| right.count())
            .unwrap_or_default();

        count''','''        let left = self.left.as_ref().map_or(0, |left| left.count());
        let right = self.right.as_ref().map_or(0, |right| right.count());
        left + right + 1'''),
(IN,'''        self.max = Some(self.value.hi())
            .max(self.left.as_ref().map(|left| left.max))
            .max(self.right.as_ref().map(|right| right.max))
            .expect("max with Some should never be None");

        Some(self)''','''        let children = [&self.left, &self.right].into_iter().flatten();
        self.max = children.fold(self.value.hi(), |max, child| max.max(child.max));

        Some(self)'''),
(IT,'''        if let Some(root) = self.root.take() {
            self.root = Some(root.insert(interval));
            return;
        }

        self.root = Some(Box::new(IntervalSearchTreeNode::new(interval)));''','''        self.root = Some(match self.root.take() {
            Some(root) => root.insert(interval),
            None => Box::new(IntervalSearchTreeNode::new(interval)),
        });'''),
(ID,'''        for (this, other) in self.components.iter().zip(&other.components).rev() {
            let order = this.cmp(other);
            if !order.is_eq() {
                return order;
            }
        }

        Ordering::Equal''','''        self.components.iter().rev().cmp(other.components.iter().rev())'''),
(ID,'''        for (this, other) in self.components.iter().zip(&other.components) {
            let order = this.cmp(other);
            if !order.is_eq() {
                return order;
            }
        }

        Ordering::Equal''','''        (0..N)
            .map(|i| self.components[i].cmp(&other.components[i]))
            .find(|order| order.is_ne())
            .unwrap_or(Ordering::Equal)'''),
]
CORE="C01 C02 C03 C04 C05 C06 C07 C08 C09 C10 C11 C12 C18 C19 C22 C24 C26 C27 C15 C23".split()
P={"core1":CORE,"core2":CORE,"cli":"C13 C14 C15 C20 C24 C25 C28".split(),"ivl":["C16","C17"]}
args=[a for a in sys.argv[1:] if not a.startswith("-")]; props=[a[2:] for a in sys.argv[1:] if a.startswith("-p")]
bad=0
for name in args or S:
    assert not subprocess.run("git -C /repo status --porcelain",shell=True,stdout=subprocess.PIPE).stdout
    try:
        for e in S[name]:
            f,a,b=e[:3]; n=e[3] if len(e)>3 else 1
            s=open(R+f).read()
            assert s.count(a)==n or n==0 and a in s,(name,f,a,s.count(a))
            open(R+f,"w").write(s.replace(a,b))
        subprocess.run("bash /opt/vp/build.sh && bash /opt/vp/test.sh /tmp/refactor-out.json",shell=True,check=True,stdout=subprocess.DEVNULL)
        for p in props or P[name]:
            t=time.time()
            r=subprocess.run(["python3","check.py",p],cwd=V,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,env={**os.environ,"VERIF_SEED":"1","VERIF_TIER":"quick"})
            o=r.stdout.decode(errors="replace")
            good=r.returncode==0 and "VIOLATION" not in o
            bad+=not good
            print("QUIET" if good else "ALARM",name,p,f"rc={r.returncode} {time.time()-t:.0f}s",flush=True)
            if not good: print(o[-3000:],flush=True)
    finally:
        subprocess.run("git -C /repo checkout -q -- .",shell=True)
sys.exit(bad>0)
