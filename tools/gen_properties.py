#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one JSON object per line)."""
import json, os
T="plotline/src/schema/transaction.rs"; TR="plotline/src/schema/trigger.rs"; RS="plotline/src/schema/resource.rs"
G="plotline/src/graph/mod.rs"; PX="plotline/src/graph/proxy.rs"; LZ="plotline/src/document/lazy.rs"
SV="plotline/src/schema/ops/save.rs"; DL="plotline/src/schema/ops/delete.rs"; GD="plotline/src/schema/guard.rs"
MD="plotline/src/schema/mod.rs"; PL="plotline/src/schema/plugin.rs"; DR="plotline/src/deref.rs"
CD="plotline-cli/src/document.rs"; CR="plotline-cli/src/repository.rs"; CM="plotline-cli/src/main.rs"
IT="plugins/interval/src/tree.rs"; IN="plugins/interval/src/node.rs"; IL="plugins/interval/src/lib.rs"; ID="plugins/interval/src/date.rs"; IP="plugins/interval/src/plugin.rs"
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=(),observe=(),hook=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
                   mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=list(observe),hook_needed=hook)))

p("C01","Transactions are atomic and apply their changes in order",
 "When a transaction on a schema returns success, the graph afterwards is exactly the graph before it with every save and delete recorded in it (including those of its committed subtransactions) applied in the order they were recorded, the last write to an id winning, and nothing else changed. When it returns an error, panics, or is dropped without being run, the graph is exactly what it was before. The caller receives exactly the value or the error that the transaction body returned.",
 ["inputs","histories","fault_sequences"],
 "every initial graph, every sequence of transactions with any mix of saves, deletes, overwrites, nested subtransactions and outcomes (success, error, panic, abandoned), any id type with a consistent order; identity and ordering code does not panic and contexts are not leaked",
 "The tests run one two-operation transaction per outcome on a one-node graph; they never overwrite, re-save after delete, order operations, nest commits under a failing outer transaction, or run a second transaction.",
 [T,MD,G],[("Background::with / commit replays the recorded operations only on Ok",T),("SchemaWriteGuard kept by the background for the whole transaction",T)],
 [("operations","ordered log of pending saves and deletes of one transaction",T),("graph","the committed nodes",MD)],
 ["result of Transaction::with","schema.read() iteration and lookups between transactions"])
p("C02","Reads inside a transaction see its own pending changes over the graph",
 "Inside a transaction, looking an id up, testing whether it exists, and dereferencing a node handle for it all agree with each other. They give the node most recently saved in this transaction or an enclosing one, nothing if the most recent change there is a delete, and otherwise what the graph held when the transaction began. Reading never changes anything.",
 ["inputs","histories"],
 "every interleaving of saves, deletes, re-saves and reads, at every nesting depth, for present, absent and re-created ids",
 "The tests ask `contains` once after one delete and one save; they never look a value up, never overwrite or re-create an id, and never compare the three read paths.",
 [T,PX],[("Context::get / Context::contains: newest pending operation first, then parent, then graph",T),("NodeProxy::try_deref / is_virtual over a Context",PX)],
 [("operations","pending changes of the context",T),("parent","enclosing context",T)],
 ["Context::get, Context::contains, Context::node"])
p("C03","Subtransactions are isolated until committed and merge all-or-nothing",
 "A subtransaction's changes are visible to itself and its own subtransactions but to nobody else until it succeeds. On success all of them, in order, become the enclosing transaction's newest changes at that moment; on error, panic or abandonment none does and the enclosing transaction continues unaffected. Any number of sibling subtransactions may be open at once, to any depth, and none sees another's uncommitted changes.",
 ["inputs","histories","fault_sequences"],
 "every tree of nested and interleaved sibling subtransactions with every combination and order of outcomes",
 "The tests open two siblings with one operation each and commit one single-operation child; they never fail a child, commit siblings that conflict, interleave with the parent, or go below depth two.",
 [T],[("Foreground::with / commit appends to the parent's operations only on Ok",T),("Context parent chain",T)],
 [("operations","per-context pending changes",T),("parent","enclosing context",T)],
 ["reads through every open context after every step","graph after the outermost transaction"])
p("C04","A failed transaction leaves the schema unchanged, unlocked and usable",
 "Wherever a transaction, save or delete fails (an error or a panic in its body, in a trigger, in a subtransaction, or while copying a node), the graph is left exactly as it was and the schema stays fully usable, except possibly a resource or target that the panicking code held write access to. Later reads, writes and transactions complete without blocking or panicking, and re-running the same work without the failure gives the same result as if the failed attempt had never happened. Creating a transaction without running it blocks nothing.",
 ["fault_sequences","histories","crash_points"],
 "every failure point of every generated transaction program, as error or as panic, followed by any later use of the schema",
 "One test returns an error after two operations; no test panics, fails inside a trigger or subtransaction, or uses the schema again after a failure.",
 [T,GD,SV,DL],[("write guard released when the background is dropped",T),("poisoned graph lock is recovered",GD),("poisoned operation log is recovered",T)],
 [("graph","lock-protected committed nodes",MD)],
 ["schema.read()/write()/transaction() after the failure"])
p("C05","Saving runs before-triggers, records the node, then runs after-triggers",
 "A save runs every before-save trigger, then records the node as those triggers left it (replacing any node with that id), then runs every after-save trigger; before-triggers do not see the node as saved and after-triggers do. If any trigger fails, later triggers do not run, the save returns that trigger's error, and neither the save nor anything its triggers changed through transactions remains. A save that reports success has put the node in its transaction.",
 ["inputs","histories","fault_sequences"],
 "every set of triggers that rewrite the target, read or change the graph through subtransactions, save or delete other nodes recursively, fail or panic; at top level and inside transactions; new and existing ids",
 "No test executes a save operation at all.",
 [SV,T,TR],[("Save::execute",SV),("Target shared between the triggers of one operation",T)],
 [("target","the node being saved, rewritable by triggers",T)],
 ["trigger invocations with what each one sees","result of Save::execute","graph afterwards"])
p("C06","Deleting removes exactly the addressed node, with triggers around it",
 "Deleting an id that does not exist in the transaction fails with the no-effect error, runs no trigger and changes nothing. Otherwise every before-delete trigger runs while the node still exists, then exactly that node is removed, then every after-delete trigger runs with the node gone, all of them given the deleted node as target. If any trigger fails, later ones do not run, the delete returns that error, and neither the delete nor anything its triggers changed through transactions remains.",
 ["inputs","histories","fault_sequences"],
 "present, absent, pending-saved and pending-deleted ids; every set of triggers that read or change the graph, recurse, fail or panic; at top level and inside transactions",
 "No test executes a delete operation at all.",
 [DL,T,TR],[("Delete::execute",DL)],[("target","copy of the node being deleted",T)],
 ["trigger invocations with what each one sees","result of Delete::execute","graph afterwards"])
p("C07","Triggers run exactly once each, in registration order, for their event only",
 "When an event is fired, exactly the triggers scheduled for that event type run, each once, in the order they were registered (whether directly or by an installed plugin), whatever number and kind of parameters each takes. The first trigger that fails stops the rest and its error is returned unchanged. Firing an event with no triggers succeeds and does nothing.",
 ["inputs","configurations","histories"],
 "any number of triggers over any number of event types (built-in and custom), parameter lists of length 0 to 8, any failure position, repeated and nested firing",
 "One test registers three triggers on two events and only counts invocations: neither order, failure, plugins, nor more than two parameters are exercised.",
 [TR,MD,"plotline/src/schema/plugin.rs"],[("TriggerSet::with_trigger / select keyed by event type",TR),("TriggerSelect::execute stops at the first error",TR),("Schema::install",MD)],
 [("triggers","per event type, the ordered triggers",TR)],
 ["log of trigger invocations"])
p("C08","Triggers receive the current operation's target, shared and scoped to it",
 "Every trigger of one save or delete that asks for the target gets that operation's node, and a change one trigger makes to it is what every later trigger of the same operation sees. Nested operations have their own target and never disturb or expose the outer one. A transaction that has no target yields none, and a parameter's scoped closure is then not called. Copies of a target share its cell for as long as they are kept, and giving a context another target leaves the copies of the earlier one as they were.",
 ["inputs","histories"],
 "any nesting of saves and deletes started from triggers, any pattern of reads and rewrites of targets by triggers with different parameter lists, custom events with and without a target",
 "No test uses a target or a trigger parameter that carries data.",
 [T,TR,SV,DL],[("Context::with_target",T),("Target clones share one cell",T),("trigger parameters built from the operation's context",TR)],
 [("target","shared cell of the operation's node",T)],
 ["values seen by each trigger invocation"])
p("C09","Resources are one shared cell per type, with no lost or misdirected writes",
 "A resource registered in a schema is found by its type by every handle taken outside or inside triggers, and types never registered are absent. A write through any handle is what every later read through any handle of that type sees, other types being unaffected, and it stays across transactions whatever their outcome, except that code panicking while it holds write access to a resource may make that one resource inaccessible. Registering a type again replaces the value for handles taken afterwards.",
 ["inputs","histories","configurations"],
 "any set of registered resource types and values, any history of reads and writes through any number of handles outside and inside transactions and triggers, re-registration, direct registration or plugins",
 "Two tests register one resource and do one write and one read through the same handle.",
 [RS,MD],[("ResourceSet keyed by TypeId",RS),("Res handle shares the locked cell",RS)],
 [("resources","type to shared locked value",RS)],
 ["Res::exists, with, with_mut, read, write"])
p("C10","A graph is an exact map from id to node, iterated in id order",
 "After any sequence of building, inserting and removing, a graph holds for each id exactly the node last inserted under it and not removed since; inserting returns the replaced node, removing returns the removed one. Lookup, existence and iteration agree, and iteration yields every node once in ascending id order. The same holds when the graph is reached through a schema's read or write access.",
 ["inputs","histories"],
 "all sequences of construction, insert, remove and reads, for any id type with a consistent order, including ids that are equal without being identical and node lists with repeated ids",
 "The tests only build graphs of at most two nodes and never insert twice, remove, look up or iterate.",
 [G,GD],[("BTreeMap keyed by the node's id",G),("guards deref to the graph",GD)],
 [("nodes","id to node",G)],
 ["Graph::{with_node, insert, remove, get, contains, from_iter, into_iter}"])
p("C11","Node handles and traversal reflect the source exactly",
 "A node handle is virtual exactly when its source has no node with its id, and dereferencing it gives that node as the source held it at the first dereference and unchanged from then on. Its successors are one handle per outgoing edge of the node, in edge order, with the edge's id and the same source, and none for a virtual node. Walking successors therefore reaches exactly the nodes reachable in the stored edges, for plain graphs and for transactions with pending changes alike.",
 ["inputs","histories"],
 "every graph shape (cycles, self-loops, parallel edges, dangling edges, wide and deep), graphs and transaction contexts as sources, handles created before and after changes, copied handles",
 "One test follows a two-node cycle; dangling, parallel, ordered edges, values and transactions as sources are untested.",
 [PX,G,T],[("NodeProxy::try_deref caches the source's answer",PX),("NodeProxy::successors maps Property::all",PX)],
 [("value","cached answer of the source",PX)],
 ["NodeProxy::{try_deref, is_virtual, successors, id, clone}"])
p("C12","A lazy document loads its own document, once found stays found, under threads",
 "Dereferencing a lazy document gives the document its repository holds for that id whenever the repository has it, and nothing only if the repository was asked during that dereference and did not have it. Once any dereference has given a document, every later or concurrent one on any thread gives that same document without consulting the repository again; a miss is not remembered. A lazy document built from a document gives that document without ever consulting the repository, and a copy behaves like the original at the time of copying.",
 ["schedules","inputs","fault_sequences"],
 "every interleaving of dereferences and clones on any number of threads, with repositories that are slow, miss, recover, fail by panic or return different versions over time",
 "No test touches lazy documents.",
 [LZ],[("LazyDocument::try_deref over a OnceLock",LZ)],[("document","once-initialised cached document",LZ)],
 ["LazyDocument::try_deref results and repository calls, in real-time order"])
p("C13","Every listed document loads from the very file it was listed from",
 "For every document the local repository lists, loading it by its id succeeds and gives exactly the bytes of the file that produced that entry, and the loaded document's id is the id it was asked for. This holds whatever dots, spaces, nesting or non-UTF-8 bytes the file names contain and whatever the configured extension is. Loading an id that has no file gives nothing.",
 ["inputs","configurations"],
 "every directory tree, file name (multiple dots, names extending one another, nested directories, unusual bytes), extension and form of the base path",
 "The command-line crate has no tests.",
 [CR,CD],[("LocalDocumentRepository::all derives the id from the path",CR),("LocalDocumentRepository::find_by_id rebuilds the path",CR)],
 [("context/extension","where and what to look for",CR)],
 ["LocalDocumentRepository::{all, find_by_id}, LazyDocument::try_deref"])
p("C14","Listing yields exactly the documents under the base directory",
 "The local repository lists exactly one entry for every regular file under its base directory whose name ends in a dot followed by the configured extension taken literally, at any depth, provided the file is neither hidden nor excluded by ignore files, and nothing for anything else (directories, other extensions, dangling links). The id is the file's path relative to the base directory without that extension. No extension string makes listing panic.",
 ["inputs","configurations"],
 "every directory tree and every extension string, including ones with dots and regular-expression metacharacters, and every form of the base path",
 "The command-line crate has no tests.",
 [CR,CM],[("Walk + extension filter in LocalDocumentRepository::all",CR)],[("context/extension","where and what to look for",CR)],
 ["LocalDocumentRepository::all","output of the list command"])
p("C15","Document commands do what they report, over the whole session",
 "A save command that succeeds makes exactly that id present with exactly the given content (empty if none); a delete command succeeds exactly when the id is present and then removes exactly it, and otherwise fails saying nothing was applied; a list command prints every present id once, one per line in ascending order, on standard output, and nothing else there. A save or delete without an id fails and changes nothing. The process exit status is zero exactly when the command succeeded.",
 ["inputs","histories"],
 "every sequence of save, delete and list commands over any ids and contents against one schema, and every single invocation of the program over any directory",
 "The command-line crate has no tests.",
 [CD,CM],[("DocumentCli::execute",CD),("main builds the schema from the repository listing",CM)],[("schema","the session's documents",CD)],
 ["result of DocumentCli::execute and the schema afterwards","stdout, stderr and exit status of the program"])
p("C16","The interval tree answers overlap queries exactly",
 "After any sequence of insertions and deletions, asking whether a closed interval overlaps the tree, and enumerating the stored intervals that overlap it, give exactly the answers of a plain list of the intervals inserted and not deleted, each stored interval reported once per insertion. Deleting removes one interval equal to the given one if there is one and changes nothing otherwise. No operation fails on well-formed intervals (in trees of up to thousands of intervals, whatever the insertion order).",
 ["inputs","histories"],
 "every sequence of insertions, deletions and queries over intervals with lower bound not above upper bound: duplicates, equal lower bounds, touching, nested, points, any insertion order (trees of up to a few thousand intervals)",
 "The plugin is outside the workspace so its tests never run here; they insert at most five intervals and never delete.",
 [IT,IN,IL],[("insert keeps the search order and subtree maxima",IN),("delete/join rebuild",IN),("intersects / for_each_intersection prune by subtree maximum",IN)],
 [("max","largest upper bound in a subtree",IN),("left/right","children by lower bound",IN)],
 ["IntervalSearchTree::{insert, with_interval, delete, intersects, for_each_intersection}"])
p("C17","Dates order chronologically for either endianness",
 "Comparing two dates compares their components from the most significant to the least: the last component first for little-endian dates and the first component first for big-endian ones, for any number and type of components. Equality, ordering and partial ordering agree with each other and form a total order. As an interval a date is the single point it denotes.",
 ["inputs"],
 "all component counts, component types and values, and both encodings",
 "There is no test for dates.",
 [ID],[("Ord for LittleEndian and BigEndian dates",ID),("Interval for Date",ID)],[("components","date components in encoding order",ID)],
 ["cmp, partial_cmp, ==, lo, hi; interval tree over dates"],
 "guarded constructor: dates have no public constructor")
p("C18","Transactions and guarded accesses on one schema are strictly serializable",
 "However transactions, reads and writes on one schema overlap in time, their results and effects are those of some one-at-a-time order that respects real time. In particular no committed change is lost, no reader sees part of a transaction or anything of a failed one, and a reader holding access sees an unchanging graph. All of them complete.",
 ["schedules","histories"],
 "all schedules of concurrent transactions (nested, failing and panicking ones included), reads and direct writes from several threads on a schema without triggers and resources",
 "All tests are single-threaded with one transaction at a time.",
 [T,GD,MD],[("Background takes the write guard before the body runs and keeps it through commit",T),("Schema read/write guards",GD)],
 [("graph","RwLock around the committed nodes",MD)],
 ["call/return history of each operation with the versions read and written"])
p("C19","Node values are neither leaked nor retained",
 "When no transaction is running, the only node values a schema keeps alive are the nodes in its graph: replaced, deleted, rolled-back and abandoned nodes, targets and working copies have all been released, after success, error and panic alike. Dropping the schema releases every node, resource and trigger it holds. A replaced resource is released once no handle refers to it.",
 ["histories","fault_sequences"],
 "every history of transactions, saves, deletes and resource registrations with every outcome, checked at every quiescent point",
 "No test counts live values.",
 [T,MD,RS,G],[("ownership of operations, targets and guards",T)],[("operations","pending changes owned by the transaction",T)],
 ["live-instance counters of node, resource and trigger values"])
p("C20","Document commands persist their own change and touch nothing else on disk",
 "A save command that succeeds leaves the document's file with the given content, and a delete command that succeeds leaves no such file, so that a later invocation sees the change. No command creates, modifies or removes any other file or directory.",
 ["inputs","histories"],
 "every sequence of program invocations over any directory tree, ids and contents",
 "The command-line crate has no tests.",
 [CD,CM,CR],[("(missing) persistence in the repository; commands only change the in-memory schema",CD)],[("files","documents on disk",CR)],
 ["directory snapshot before and after each invocation"])
p("C21","The interval index follows the graph",
 "With the interval plugin installed, the set of indexed intervals after every transaction is exactly the set of intervals of the nodes in the graph.",
 ["histories","inputs"],
 "every history of saves, overwrites and deletes with every outcome",
 "The plugin does not compile against the library, so no test can run.",
 [IP],[("on_save / on_delete triggers maintain the tree resource",IP)],[],["contents of the index after each transaction"])
p("C22","Scoped access to several values is all-or-nothing and always released",
 "Scoped read or write access to one value or to a tuple of up to six runs the closure exactly once with each component's current value in position if all of them are available, and otherwise does not run it and returns nothing. Writes made in the closure are the values' state afterwards. All access is released when the call ends, whether the closure ran, did not run or panicked, so none of the values stays blocked.",
 ["inputs","fault_sequences"],
 "every tuple width, every subset of unavailable components, user-defined and built-in accessors, closures that write, return or panic, repeated and mixed calls",
 "Only single-value access on one resource is tested.",
 [DR,RS,T],[("blanket With/WithMut over ReadOnly/ReadWrite",DR),("impl_with! for tuples",DR)],[],
 ["closure calls, values seen, guard acquire/release events of instrumented accessors"])
p("C23","Safe use of the library is free of undefined behaviour, data races and leaks",
 "No use of the library from safe code causes undefined behaviour, a data race or a memory leak. This covers graphs, node handles, schemas, nested transactions, triggers, resources and lazy documents, single- and multi-threaded where the types allow it, and executions with panics.",
 ["programs","schedules"],
 "all safe client programs and schedules; observed on generated workloads under an interpreter that detects undefined behaviour",
 "Ordinary test runs cannot observe undefined behaviour or races.",
 [T,PX,LZ,RS,GD,TR],[("the crate contains no unsafe code and relies on std locks and once-cells",LZ)],[],
 ["Miri reports on the workloads"])
p("C24","Documents are loaded only when dereferenced, and only the one asked for",
 "Building, copying, identifying, listing, storing, iterating, looking up, saving, deleting and dropping lazy documents loads no document. Dereferencing one loads at most that one document, at most once in that call, and not at all once it is there. A walk loads only the nodes whose successors are asked for. So listing a directory opens none of its documents, and a command opens no other document's file than its own.",
 ["inputs","histories"],
 "every program over lazy documents, graphs and schemas of them, every directory tree and every command",
 "No test counts loads; the command-line crate has no tests.",
 [LZ,G,T,PX,CR,CD,CM],[("LazyDocument::try_deref is the only caller of find_by_id",LZ),("LocalDocumentRepository::all only walks the directory",CR)],
 [("document","cached document of a lazy document",LZ)],
 ["calls of the repository, bracketed by dereferences","traces of the files the tool opens"])
p("C25","The tool survives its surroundings and its exit status tells the truth",
 "Whatever its arguments, base directory, working directory, file permissions and standard output are like, the tool ends by itself, without panicking or being killed, with status zero if it did what was asked and otherwise with another status and a message on standard error. What cannot be read (directories, files, ignore files, looping or dangling links) does not keep readable documents from being listed, and a listing that could not be written is not reported as a success.",
 ["inputs","fault_sequences"],
 "every argument list (any bytes), base directory (missing, unreadable, a file, a link, a pipe), tree, working directory (removed included) and standard output (full or closed included); standard error accepts what is written to it",
 "The command-line crate has no tests.",
 [CM,CD,CR],[("main",CM),("DocumentCli::execute",CD),("LocalDocumentRepository::all skips what cannot be read",CR)],
 [],["exit status, standard output and standard error of the process"])
p("C26","Schemas are independent of each other",
 "Any number of schemas can be used side by side: in turn, with transactions of one inside transactions or accesses of another, with triggers of one acting on another, and in different threads. Each behaves as if it were alone: its graph, pending changes, resources and triggers are never seen, run, blocked or changed by work on another schema, or by threads waiting for one, whatever the outcome of either.",
 ["inputs","histories","fault_sequences"],
 "every number of schemas of the same type and every nesting and outcome of their transactions, operations and triggers, as long as none is entered again while it is locked",
 "Every test uses one schema.",
 [MD,T,TR,RS,GD],[("all state of a schema lives in it; nothing is global or per thread",MD)],
 [("graph","the committed nodes",MD),("resources","resource cells",MD),("triggers","scheduled triggers",MD)],
 ["every schema and open context after every step"])
p("C27","Building a schema adds exactly what each step says, plugins included",
 "A schema is built from a graph by registering resources and triggers and installing plugins, in any number and order. Each step adds exactly what it names and leaves the graph, the other resources and the earlier triggers as they were; installing a plugin runs its installation exactly once, on the schema built so far, and continues with the schema it gives back. The schema is fully usable between any two steps and inside a plugin's installation, and handles taken then stay valid. Sets of resources and triggers of their own behave likewise.",
 ["inputs","histories"],
 "every sequence of building steps, with plugins of the same and different types nested in and repeated after each other, and any use of the schema in between",
 "Tests build schemas of one or two steps and no test installs a plugin.",
 [MD,TR,RS,PL],[("Schema::with_resource / with_trigger / install",MD),("TriggerSet::with_trigger",TR),("ResourceSet::with_resource",RS),("Plugin",PL)],
 [("resources","resource cells",MD),("triggers","scheduled triggers",MD)],
 ["graph, every resource and the triggers of every event after each step"])
p("C28","Commands work on the base directory and extension they are given",
 "A command works on the directory given with -C or --context, taken relative to the working directory, and on the working directory itself if none is given; and on the documents with the extension given with -e or --extension, and md if none is given. Each option may stand before, between and after the words of the command, its value apart or joined to it (a value that reads as an option or as a command word is joined), with the same effect; ls is list. The program's name and its environment change none of this.",
 ["inputs"],
 "every spelling and position of the options (each given at most once), every directory, extension, working directory and environment",
 "The command-line crate has no tests.",
 [CM,CD,CR],[("Cli options are global, with defaults",CM),("DocumentSubCommand",CD),("LocalDocumentRepository",CR)],
 [],["what the binary lists and what it can delete"])
out=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),"properties.jsonl")
with open(out,"w") as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+"\n")
print(len(P),"properties")
