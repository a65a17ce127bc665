import json
T="src/typed_graph.rs"; X="src/typed_graph/transaction.rs"; CA="ttgraph_macros/src/cate_arena.rs"; TN="ttgraph_macros/src/typed_node.rs"; NE="ttgraph_macros/src/node_enum.rs"
BD="ttgraph_macros/src/bidirectional.rs"; LC="ttgraph_macros/src/link_check.rs"; GR="ttgraph_macros/src/group.rs"; AR="src/cate_arena.rs"
P=[]
def p(id,title,st,over,qt,why,files,mech,obs,state=()):
    P.append(dict(id=id,title=title,statement=st,quantifier=dict(over=over,text=qt),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=obs,hook_needed=None)))
p("C01","A commit applies exactly what the transaction recorded, in the documented order",
 "After a commit the graph holds exactly the nodes and contents obtained by applying the transaction's operations to the previous graph in the documented order: redirect links, insert, mutate, update, redirect all links, remove, complete bidirectional links. Operations of one kind apply in the order they were recorded; a mutate or update of a node created earlier in the same transaction applies at once to its pending contents. A valid transaction is never rejected, and nothing that it does not mention changes.",
 ["histories","inputs","programs"],"every node schema, every graph reached by any history, every combination of operations in a transaction (including several operations on one node, variant changes, and nodes created, changed and removed in the same transaction)",
 "The tests commit a few fixed transactions, mostly with one kind of operation each; the interplay of phases on shared nodes and on graphs with a long history is not sampled.",
 [T,X,AR,CA],[("Graph::do_commit runs the phases",T),("Transaction records operations",X),("arena insert/mutate_with/update_with/remove",AR)],["Graph::commit","Graph::get","Graph::iter"],
 [("Transaction","recorded operations",X),("Graph.nodes","node contents",T)])
p("C02","Removing a node leaves no link to it anywhere in the graph",
 "After a commit that removes a node, no node of the graph links to it: a direct link becomes empty, a vector slot becomes empty with all other positions unchanged, and a set loses the element; all other links are untouched. The same holds for a node created and removed within one transaction.",
 ["histories","inputs","programs"],"every set of removed nodes, every kind and multiplicity of link to them (self links, repeated vector entries, links set up in the same transaction or by redirects), every prior history",
 "Tests remove single nodes with one or two incoming links right after building the graph.",
 [T,X,TN],[("Graph::remove_node / clear_links_to via reverse links",T),("modify_link generated per field",TN),("Transaction::remove for uncommitted nodes",X)],["Graph::commit","Graph::iter"])
p("C03","Redirects move every link to the final target of its chain; loops panic",
 "Redirecting old to new replaces every link to old by a link to new, following chains of redirects in the same transaction to their final target whatever their order; vector positions are kept and sets merge. Redirecting links affects only nodes already in the graph, redirecting all links also affects the nodes and changes of the transaction itself. A cyclic set of redirects makes the commit panic.",
 ["histories","inputs"],"every set of redirect requests (chains, fan-in, cycles of any length, old nodes that are also removed or mutated), over every graph and history",
 "Tests cover three fixed redirect chains on a four node graph.",
 [T,X,TN],[("Graph::redirect_links_vec (union-find) and redirect_links",T),("modify_link",TN)],["Graph::commit","Graph::iter"])
p("C04","Bidirectional links stay symmetric",
 "For fields declared as a bidirectional pair, after every commit, deserialization or context switch, a node in the graph links to another through one field exactly if that other node links back through the paired field. A link that a transaction adds gets its counterpart, a link that it takes away (by mutation, update, redirect or removal) loses its counterpart, and pairs that it does not touch stay.",
 ["histories","inputs","programs"],"every schema with bidirectional declarations (direct, set, group and self pairs), every history of commits",
 "Tests check a few hand written declarations after insertions and single mutations.",
 [T,BD,NE,TN],[("Graph::apply_bidirectional_links over the recorded link changes",T),("opposite link tables",BD),("add_link / remove_link / contains_link",TN)],["Graph::commit","deserialize_graph","Graph::switch_context"],
 [("LinkChangeRecorder","net link changes of a commit",T)])
p("C05","Bidirectional conflicts panic, and only those",
 "A commit panics when a counterpart link would have to overwrite a direct link to a different node, or when several fields could hold the counterpart and none of them does. When the transaction itself provides or frees the counterpart, or exactly one field can hold it, the commit succeeds.",
 ["histories","inputs","programs"],"every schema with bidirectional declarations including groups and shared opposites, every transaction",
 "Tests contain one panicking and one resolved example.",
 [T,BD,TN],[("apply_bidirectional_links choice assertion",T),("add_link on occupied direct link",TN),("get_bidiretional_link_mirrors_of / match_bd_link_group","src/typed_graph/macro_traits.rs")],["Graph::commit"])
p("C06","Node indexes are never empty and never reused",
 "Within a context, every index handed out by insert, alloc, merge preparation or a context switch is non-empty and different from every index handed out before in that context, whichever thread, graph or transaction asked for it and even if its node was removed or its transaction given up. In a deserialized context no new index equals an index that the deserialized graph uses, either as a node or as a link target.",
 ["schedules","histories"],"every interleaving of threads sharing a context, every history of graphs, transactions, switches and deserializations",
 "Tests are single threaded and never compare indexes across graphs, threads or deserialization.",
 ["src/id_distributer.rs",CA,"src/typed_graph/serialize.rs",T],[("IdDistributer::alloc atomic counter","src/id_distributer.rs"),("deserialize_graph restores the counter","src/typed_graph/serialize.rs")],["Transaction::insert","Transaction::alloc","Transaction::alloc_untyped","Graph::switch_context"],
 [("IdDistributer.cnt","last index handed out","src/id_distributer.rs")])
p("C07","Misuse is rejected by a panic instead of corrupting a graph",
 "Committing a transaction of another context, committing with allocated but unfilled nodes, merging a graph of another context, filling back with another type than allocated, filling back twice or filling an index that was never allocated, and mutating, updating or removing a node that is not there all panic, in debug and release builds. A transaction rejected for its context or for unfilled nodes leaves the graph as it was.",
 ["histories","inputs","configurations"],"every kind of misuse, at any point of any history, in every build profile and feature set",
 "Tests have a handful of should_panic cases, only in debug builds.",
 [T,X,AR,CA],[("assertions in do_commit and merge",T),("fill_back checks",AR),("fill_back_untyped check",CA)],["Graph::commit","Transaction::fill_back","Transaction::fill_back_untyped","Transaction::merge"])
p("C08","All views of a graph agree",
 "At every moment get, iter, iter_type, iter_group, borrowed and owned into_iter, len, is_empty, Display and Debug present the same set of nodes with the same contents, each node exactly once, listed under its current variant and under exactly the groups that contain that variant. Iterators report their exact remaining length and stay exhausted; get of an index that is not in the graph returns nothing.",
 ["histories","inputs","programs"],"every schema and every graph reached by any history, including removals, variant changes and merges",
 "Tests look at iteration right after insertion only.",
 [T,CA,GR,"src/typed_graph/display.rs"],[("per variant containers and dispatcher",CA),("generated iterators",CA),("in_group",GR)],["Graph::get","Graph::iter","Graph::iter_type","Graph::iter_group","Graph::into_iter","Graph::len","Display"],
 [("_dispatcher and containers","index to variant map and per variant storage",CA)])
p("C09","Serialization round trips",
 "Serializing a graph, directly or through the helper struct, and deserializing it yields a graph with the same indexes, variants, data and links, together with a context in which it behaves afterwards like the original graph would. Serializing does not change the graph.",
 ["histories","inputs","programs"],"every schema, every graph reached by any history (including removed nodes, dangling links, empty graphs), every later history on the result",
 "Tests compare one small graph and never use the deserialized graph again.",
 ["src/typed_graph/serialize.rs",T,CA],[("Serialize for Graph, GraphSerializer, deserialize_graph","src/typed_graph/serialize.rs"),("do_deserialize rebuilds reverse links",T)],["serde of Graph / GraphSerializer","deserialize_graph"])
p("C10","Switching context is a link preserving relabelling",
 "Switching a graph without external links to another context keeps every node with its variant and data, gives each node a new distinct index of the new context, and relabels every link accordingly, keeping vector order, empty slots and set sizes. The result belongs to the new context and behaves afterwards like the original graph would.",
 ["histories","inputs","programs"],"every schema, every closed graph reached by any history, target contexts with any number of indexes already used (so that old and new indexes overlap in any way), every later history",
 "Tests switch one or two small graphs and only look at node presence.",
 [T,TN],[("Graph::switch_context two pass relabelling over reverse links",T),("modify_link",TN)],["Graph::switch_context"])
p("C11","Merging a graph adds all its nodes unchanged",
 "Merging a graph into a transaction of the same context and committing it adds every node of the merged graph, under its old index and with its contents, to the target graph, as if these nodes had been inserted; the target's own nodes are unaffected except where bidirectional declarations relate them. Further operations of the same transaction and later transactions can address the merged nodes like any others.",
 ["histories","inputs","programs"],"every pair of graphs sharing a context, every history before and after the merge, several merges in one transaction",
 "Tests merge two one-node graphs.",
 [X,CA,T],[("Transaction::merge, arena merge",X),("merge_nodes",T)],["Transaction::merge","Graph::commit"])
p("C12","Link type declarations are enforced on every new link, and nothing more",
 "With the debug feature on, a commit that leaves a new link, however it came about (insert, mutate, update, redirect, merge or bidirectional completion), to a node whose variant the declarations of that link or one of its groups do not allow panics. Commits whose new links all point to allowed variants, to absent nodes or to nothing never fail this check.",
 ["histories","inputs","programs"],"every set of link type declarations over variants, variant groups and link groups, every transaction and way to create a link",
 "Tests have a few fixed legal and illegal insertions.",
 [T,LC,"src/typed_graph/macro_traits.rs",GR],[("Graph::check_link_type over recorded additions",T),("check_link_type_by_group table",LC),("to_log_mirror_enums",NE)],["Graph::commit"])
p("C13","Checked commits run every registered check on exactly what changed",
 "A checked commit calls every registered node check on every node that is new or changed and on no node that the transaction does not affect, every link check on every link that was added respectively removed (including those caused by redirects, removals and bidirectional completion) and on no others, with the indexes and final contents of the graph. It panics exactly if a registered check fails; otherwise its result equals that of a plain commit, and unregistered checks are never called.",
 ["histories","inputs","programs"],"every set of checks, every transaction and history",
 "Tests use two fixed checks on single insertions.",
 [T,"src/typed_graph/check.rs"],[("Graph::check_change over LinkChangeRecorder",T),("GraphCheck registry","src/typed_graph/check.rs")],["Graph::commit_checked","GraphCheck"])
p("C14","Reflection of nodes matches their declaration",
 "For every declared node type, the reflected link names, kinds and handles, the links listed per source, per link, per name and per group, membership in groups, declared counterparts and allowed targets of each link, and data access by name and type correspond exactly to the declared fields, attributes and current contents, and never list empty links. Adding, removing and modifying a link through reflection changes that field only, and reports truthfully whether it did.",
 ["programs","inputs"],"every struct and enum declaration (field types and spellings, orders, group attributes, phantom groups, generics-free) and every content",
 "Tests instantiate a few structs with fixed contents.",
 [TN,NE,GR,"ttgraph_macros/src/lib.rs","ttgraph_macros/src/utils.rs"],[("derive(TypedNode)",TN),("node_enum!",NE),("groups",GR)],["TypedNode","NodeEnum"])
p("C15","Closures run once, payloads drop once, uncommitted transactions do nothing",
 "Every closure given to mutate or update runs exactly once if its transaction commits and never if it is given up, and sees the node as the preceding operations left it. A transaction has no effect on any graph before it is committed nor if it is dropped, and reports itself empty exactly while no operation is pending. Every node payload is dropped exactly once, when it is removed, replaced, given up or its graph goes away.",
 ["histories","inputs"],"every transaction, including several closures per node, closures on pending, allocated, merged and removed nodes, and every way to end a transaction or graph",
 "Tests never count closure calls or drops.",
 [X,T,AR,CA],[("mut_nodes / update_nodes queues",X),("mutate_with / update_with",AR),("give_up and is_empty",X)],["Transaction::mutate","Transaction::update","Transaction::give_up","Transaction::is_empty","Drop of node data"])
p("C16","Future behaviour depends on the contents only, not on how they came about",
 "Two graphs with the same nodes and contents react identically to the same transaction, in particular to redirects, removals and context switches that must find every incoming link. So after any history every link that a node holds is found when its target is redirected, removed or relabelled, and no link that it no longer holds is touched.",
 ["histories"],"every history of commits (mutations, updates, redirects, removals, variant changes, bidirectional completion, merges, switches, deserializations) that leads to a graph, compared with a graph built afresh with the same contents",
 "Needs histories much longer and more mixed than any test; reverse link bookkeeping errors only show in a later operation.",
 [T],[("back_links maintained by every phase of a commit",T),("check_backlinks (debug aid)",T)],["Graph::commit after arbitrary histories"],
 [("Graph.back_links","for each index the nodes and fields that link to it",T)])
p("C17","Runs are deterministic",
 "For node types without hash based sets, the same sequence of calls yields the same indexes, the same iteration orders, the same contents and order of ordered sets, the same Display text and the same serialized form (apart from the random context id), in every run and process.",
 ["histories","configurations"],"every history, repeated within a process and across processes with different hash seeds",
 "A test run has nothing to compare itself with.",
 [T,X,CA],[("insertion ordered containers throughout",T),("OrderMap based arena",CA)],["Graph::iter","Display","Serialize"])
p("C18","Behaviour does not depend on build profile or on the debug feature",
 "The library builds with and without the debug feature and with and without debug assertions, and every history of calls has the same outcome (returned indexes, panics, final contents) in all four configurations, except that link type checks and checked commits exist only with the debug feature.",
 ["configurations","histories"],"all four combinations of profile and feature, every history",
 "The test suite runs in one configuration only.",
 [T,"src/typed_graph/check.rs","Cargo.toml"],[("cfg(feature = debug) items",T)],["Graph::commit","all public calls"])
p("C19","Typed macros equal the untyped operations restricted to one variant",
 "get_node!, iter_nodes!, alloc_node!, mut_node! and update_node! behave like the corresponding untyped calls on nodes of the named variant, in all their syntactic forms. Reading macros yield nothing for other variants, and mutating or updating a node of another variant through the macros panics at the time the closure would have run.",
 ["histories","inputs","programs"],"every schema, variant, index and history",
 "Tests use the macros on matching variants only.",
 ["src/typed_graph/macros.rs","ttgraph_macros/src/lib.rs"],[("macro_rules definitions","src/typed_graph/macros.rs"),("discriminant!","ttgraph_macros/src/lib.rs")],["get_node!","iter_nodes!","alloc_node!","mut_node!","update_node!"])
p("C20","Graphs and transactions that share a context do not interfere",
 "Several graphs and several open transactions may share a context and be used in any interleaving: an operation on one graph or transaction never changes another graph or pending transaction, and each commit has the effect it would have if the other graphs and the transactions that were never committed did not exist.",
 ["histories","schedules"],"every interleaving of operations on any number of graphs and open transactions of one or several contexts",
 "Tests use one graph and one transaction at a time, except for a single merge.",
 [T,X,"src/id_distributer.rs"],[("transactions record operations without referring to a graph",X),("graphs own their nodes; only the index counter is shared",T)],["Graph::commit","Transaction"])
p("C21","The integrity check tells whether a graph is closed",
 "With the debug feature and debug assertions on, check_integrity panics exactly if some node of the graph links, through a field of any kind, to a node that is not in the graph, however that link came about. In other builds it never panics. It never changes the graph.",
 ["inputs","histories"],"every schema and every graph reached by any history, including deserialized, switched and merged ones",
 "No test calls it on a graph with an external link.",
 [T],[("check_integrity",T)],["Graph::check_integrity"])
p("C22","Wrong declarations are rejected at compile time, right ones accepted",
 "A node declaration does not compile if it is malformed, if it declares a bidirectional link, a group or a link type for a variant, group or link that does not exist (or that some member of the named group lacks), if it puts a data field into a link group, or if it names a link group like a link; no part of a declaration is silently ignored. A declaration in the documented syntax that names only declared variants, groups and links compiles, whatever the number, order and spelling of its parts.",
 ["programs"],"every TypedNode struct and node_enum! invocation with any number of variants, fields, groups, bidirectional and link type declarations, and every single mistake in them",
 "The test suite only contains declarations that compile.",
 ["ttgraph_macros/src/lib.rs",BD,LC,GR,NE,TN,CA],[("node_enum! parses and validates its blocks","ttgraph_macros/src/lib.rs"),("check_bidirectional_links",BD),("check_type_annotations",LC),("derive(TypedNode) group attributes","ttgraph_macros/src/lib.rs")],["node_enum!","derive(TypedNode)","discriminant!"])
open("/verif/properties.jsonl","w").write("".join(json.dumps(x)+"\n" for x in P))
import re
for x in P:
    assert len(x["title"])<=80,(x["id"],len(x["title"]))
    n=len(re.findall(r"[.!?](?:\s|$)",x["statement"])); print(x["id"],n)
