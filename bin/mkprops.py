#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the list stays in one editable place)."""
import json, os
GM='src/graph_impl/graph_map/graph.rs'; GN='src/graph_impl/graph_map/node.rs'; GE='src/graph_impl/graph_map/edge.rs'
SG='src/graph_impl/static_graph/graph.rs'; EV='src/graph_impl/static_graph/edge_vec.rs'; SI='src/graph_impl/static_graph/static_edge_iter.rs'; SN='src/graph_impl/static_graph/node.rs'
MM='src/graph_impl/static_graph/mmap/graph_mmap.rs'; EM='src/graph_impl/static_graph/mmap/edge_vec_mmap.rs'
GT='src/generic/graph.rs'; IM='src/io/mmap.rs'; SE='src/io/serde.rs'
P=[]
def p(id,title,stmt,over,text,why,files,mech,state=None,observe=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],"hook_needed":None}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if observe: a["observe_at"]=observe
    P.append({"id":id,"title":title,"statement":stmt,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})

p("C01","A mutable graph holds exactly what its operation history implies",
 "After any sequence of node and edge additions, removals and label updates, a mutable graph contains exactly the nodes and edges that the sequence implies: adding an edge adds its missing endpoints, removing a node removes every edge incident to it (self-loops included), and an operation on something absent changes nothing. The return value of every operation says truthfully whether something was added, updated or removed (and what), or was not there. This holds for directed and undirected graphs, for every id and label-id width, and however the operation is reached (concrete type or trait object).",
 ["histories","configurations"],"every finite sequence of public mutators, every id type, directed and undirected",
 "The tests run a dozen hand-written sequences of at most ten steps on tiny graphs with fresh ids; no test removes a node that has a self-loop, re-adds after removal or mixes removals and updates.",
 [GM,GN],[("add_node/remove_node/add_edge/remove_edge/update_*",GM),("per-node adjacency edits",GN)],
 [("node_map","id -> node with its neighbours",GM)],["return values","has_node/has_edge/get_node/get_edge after every step"])
p("C02","Node and edge counts equal the number of distinct nodes and edges",
 "At every point of every history the node count equals the number of nodes present and the edge count equals the number of distinct edges present (an undirected edge and a self-loop count once), on the mutable, static and memory-mapped representations alike. Re-adding an existing node or edge, updating a label, or removing something absent leaves both counts unchanged, and recomputing the count gives the same number.",
 ["histories","inputs"],"every history and every graph value, including self-loops, duplicates and empty graphs",
 "Tests assert counts only after adding distinct edges; duplicate additions, updates through the label API and self-loops are never counted.",
 [GM,SG,MM,EV],[("incremental edge counter, refine_edge_count",GM),("num_nodes/num_edges from offsets and edges",EV)],
 [("num_of_edges","cached number of edges",GM)])
p("C03","Adjacency is consistent: mirrored, complete, and equal to degrees",
 "For every node, its neighbour list holds exactly the targets of its edges, once each and in increasing id order; in an undirected graph adjacency is symmetric, and in a directed graph the in-neighbour list holds exactly the sources of its incoming edges. Degree and in-degree equal the lengths of these lists, and the iterator and list forms agree, on every representation and after any history.",
 ["histories","inputs"],"every history, every node, directed and undirected, all representations",
 "Tests look at neighbours of one or two nodes of a fixed graph; a lost mirror entry after a removal or a conversion shows only in particular histories.",
 [GM,GN,SG,EV,MM],[("mirror update in add_edge/remove_edge/remove_node",GM),("offset slices",EV)])
p("C04","Enumerations list every node and edge exactly once and agree with lookups",
 "On every representation, enumerating node ids, nodes, edge ids or edges yields each node or edge of the graph exactly once and nothing else (an undirected edge in one orientation, a self-loop once). The label carried by an enumerated node or edge is the one the point lookup reports, and point lookups by existence, by reference and by label agree with each other.",
 ["inputs","histories"],"every graph value on the mutable, static and memory-mapped representation",
 "Tests enumerate a few fixed graphs; undirected labelled static graphs, interleaved self-loops, gaps and sorted/unsorted id patterns need every small graph to be tried.",
 [GM,SG,MM,SI,GE,SN],[("edge_indices/edges/nodes",GM),("StaticEdgeIndexIter",SI),("edges() on static graphs",SG)])
p("C05","Labels are last-write-wins and seen identically through every view",
 "A node or edge carries the label given by the last successful addition or update that touched it (possibly none), an edge created without a label and a node created implicitly carry none, and relabelling one element never changes another. In an undirected graph both orientations of an edge show the same label, and the label and label-id counters equal the multiset of labels actually carried.",
 ["histories","inputs"],"every history mixing additions, re-additions, updates and removals with any labels",
 "Tests set each label once; overwriting with none, reverse-orientation updates of an undirected edge and label reuse after removal are not exercised.",
 [GM,GN,GT],[("label id stored on both endpoints",GM),("get_node_label/get_edge_label and counters",GT)])
p("C06","Label tables intern: equal labels share one stable dense id",
 "A label table gives the first occurrence of each distinct item the next dense index starting at 0, gives an equal item the same index, and never changes an index while the item stays in; looking up by index and by item are inverse, iteration is in index order, and popping removes exactly the last item. Both table kinds, their conversions, collection from iterators, clones and the label tables inside graphs behave this way, and labels of removed or relabelled elements keep their id.",
 ["histories","inputs"],"every sequence of add, pop, clear, conversion and lookup on both table kinds, and every graph history",
 "Tests add two or three items; pop followed by re-add, conversions after pops and tables pre-seeded into graphs are not covered as histories.",
 ["src/map/set_map.rs","src/map/vec_map.rs","src/generic/map.rs",GM],[("add_item/find_index/pop_item","src/map/set_map.rs"),("add_item/find_index/pop_item","src/map/vec_map.rs"),("add_node_label/add_edge_label/with_label_map",GM)])
p("C07","The maximum seen id is the largest id the graph has ever held",
 "The maximum seen id of a mutable graph is none while it never held a node, and afterwards the largest id ever added, explicitly or as an edge endpoint; it never decreases, not even when that node is removed. A static or memory-mapped graph reports its largest node id, or none when it has no nodes.",
 ["histories","configurations"],"every history, all id widths, all representations",
 "One test adds ascending ids; descending ids, implicit endpoints, removals of the maximum and empty static graphs are unexamined.",
 [GM,SG,MM],[("max_id update in add_node",GM),("max_seen_id",SG)],[("max_id","largest id seen",GM)])
p("C08","Equality and hashing depend only on the labelled graph value",
 "Two graphs of the same kind compare equal exactly when they have the same nodes, edges and labels, regardless of insertion order, history, label-id assignment or representation, and comparison is symmetric. Equal graphs hash equally, and the same holds for label tables whose equality ignores order.",
 ["inputs","histories"],"every pair of graph values (typed, boxed, cross-representation) including strict subgraphs and relabelled copies",
 "Tests compare identical or obviously different graphs; subset graphs, graphs differing in one label and permuted histories need pairs to be enumerated.",
 [GM,SG,GT,"src/map/set_map.rs"],[("PartialEq/Hash for TypedGraphMap",GM),("PartialEq/Hash for TypedStaticGraph",SG),("equal(), Box PartialEq/Hash",GT),("SetMap Hash","src/map/set_map.rs")])
p("C09","A clone equals its original and is independent of it",
 "Cloning a graph (concrete or boxed trait object, of any representation) yields a graph of the same direction that is equal to the original in nodes, edges and labels. Later changes to either leave the other unchanged.",
 ["histories","inputs"],"every graph value and every continuation on original and clone",
 "No test mutates after cloning a boxed graph or clones graphs with isolated nodes, self-loops or unlabelled elements mixed in.",
 [GT,GM,"src/algorithm/graph_union.rs"],[("Clone for Box<GeneralGraph>",GT),("derived Clone",GM)])
p("C10","Converting to a static graph preserves the graph",
 "Converting a mutable graph whose node ids are 0..n-1 to the static representation preserves direction, nodes, edges, all labels and label ids, counts, degrees and neighbour lists, for every such graph including empty graphs, self-loops and partially labelled ones. For ids with gaps the edges, their labels and adjacency are preserved.",
 ["inputs","configurations"],"every graph value, id and label-id widths up to the full capacity of the id type",
 "Tests convert three fixed graphs; unlabelled elements next to labelled ones, gaps, self-loops, the empty graph and full-capacity id types are not reached.",
 [GM,SG,EV],[("into_static",GM),("from_raw",SG)])
p("C11","A static graph answers every query from its edge vectors",
 "A static graph built from offset, edge and label vectors answers node, edge, label, adjacency, count and edge-position queries exactly as the graph those vectors describe, with the sentinel label meaning no label, whichever constructor is used. Stripping node or edge labels removes exactly those labels and nothing else. A directed graph offered without its incoming edges, and a label vector that does not match its edges, are refused.",
 ["inputs","configurations"],"every well-formed set of vectors, directed and undirected, with and without labels and explicit counts",
 "Tests build two or three fixed vector sets.",
 [SG,EV,SI,SN],[("new/with_labels/from_raw/remove_*labels",SG),("find_edge_index binary search",EV)])
p("C12","A memory-mapped dump loads back as the same graph",
 "Dumping a static graph and loading the dump yields a graph that answers every query identically to the static graph, for every graph and size, including graphs without edges, labels or nodes. A successful dump over an earlier dump at the same location leaves only the new graph visible to a later load, and a dump that cannot be written reports an error.",
 ["inputs","histories","fault_sequences"],"every static graph, every sequence of dumps and loads at shared locations, write failures at any file",
 "Tests dump two small labelled graphs to fresh locations; empty sections, sizes beyond one write block, and re-dumping a graph of a different shape are not reached.",
 [SG,EV,MM,EM,IM],[("dump_mmap",SG),("dump in chunks",IM),("StaticGraphMmap::new",MM)])
p("C13","Export then import returns the same object; damaged files never do",
 "Exporting a mutable graph, static graph or label table and importing the file yields an object equal to the original in every observable respect, including label ids, counts and maximum seen id, and able to continue the same history. A file cut short at any point is never imported successfully, and re-exporting over a longer file leaves only the new object.",
 ["inputs","crash_points","histories"],"every object, every truncation point of its file, every overwrite",
 "Tests round-trip one graph of each kind; no truncated file and no continued use is tried.",
 [SE,GM,SG,"src/map/set_map.rs","src/map/vec_map.rs"],[("Serializer::export/Deserializer::import",SE)])
p("C14","Writing a graph to CSV and reading it back gives an equal graph",
 "For every graph and every supported separator, writing nodes and edges to CSV and reading them back into an empty graph of the same direction gives an equal graph, including isolated nodes, self-loops, unlabelled elements and labels that contain separators, quotes, spaces, line breaks or non-ASCII text. Reading without the node file gives exactly the edges and their endpoints. A separator that is neither named nor a single byte is refused by the writer.",
 ["inputs","configurations"],"every graph, every separator, any label text",
 "Tests write one graph with plain labels for each separator.",
 ["src/io/csv/writer.rs","src/io/csv/reader.rs","src/io/csv/record.rs","src/io/csv/mod.rs"],[("CSVWriter::write","src/io/csv/writer.rs"),("CSVReader::read","src/io/csv/reader.rs"),("record (de)serialisation","src/io/csv/record.rs")])
p("C15","CSV reading skips exactly the unusable rows and applies the rest in order",
 "Reading CSV input adds one node or edge per usable row in file order, on top of what the graph already holds, and skips rows that cannot be read (missing or unparsable ids, wrong number of fields unless flexible) without affecting other rows or failing. Header and header-less files, flexible mode, absent and empty label fields (no label) and every separator follow the same rule, and the node and edge iterators yield exactly the rows that reading would add. A separator that is neither named nor a single byte is refused by the reader.",
 ["inputs","configurations"],"every sequence of well-formed and malformed rows under every reader option",
 "Tests read a handful of well-formed fixed files; malformed rows between good ones and option combinations are not enumerated.",
 ["src/io/csv/reader.rs","src/io/csv/record.rs"],[("visit_seq/visit_map","src/io/csv/record.rs"),("read/node_iter/edge_iter","src/io/csv/reader.rs")])
p("C16","A write that did not reach the file is reported as an error",
 "When writing CSV, exporting an object or dumping a graph returns success, every byte has been handed to the file system; if the target cannot be created or any write fails, at any position and in any of the files involved, the call returns an error. It neither panics nor reports success.",
 ["fault_sequences","crash_points"],"every write position failing in every output file of every writer",
 "Tests never make a write fail; buffered data lost on drop is invisible on a healthy disk.",
 ["src/io/csv/writer.rs",SE,IM,SG,EV],[("buffered writers and their flush","src/io/csv/writer.rs"),("export",SE),("dump",IM)])
p("C17","Breadth-first search visits every node once in breadth-first order",
 "A breadth-first search returns every node of the graph exactly once, starting with the requested node; within the part reachable from a start it visits the nodes in a valid breadth-first order (a node follows its earliest-visited in-neighbour's turn, so distances never decrease), and it starts a new part only when nothing reachable from visited nodes is left. After the last node it keeps returning nothing, and a clone taken midway continues identically.",
 ["inputs","histories"],"every graph (directed, undirected, any representation, ids with gaps), every start",
 "Tests check a few fixed graphs against one expected order.",
 ["src/algorithm/bfs.rs"],[("queue and discovered set","src/algorithm/bfs.rs")])
p("C18","Depth-first search visits every node once in depth-first order",
 "A depth-first search returns every node of the graph exactly once, starting with the requested node, in a valid depth-first order: each next node is adjacent to the most recently visited node that still has an unvisited neighbour, and a new part starts only when no visited node has one. Resetting and resuming from a given stack and visited set obey the same rule, and after the last node it keeps returning nothing.",
 ["inputs","histories"],"every graph (directed, undirected, any representation, ids with gaps), every start, every interleaving with reset and clone",
 "Tests check a few fixed graphs, on which breadth-like orders also pass.",
 ["src/algorithm/dfs.rs"],[("stack and discovered set","src/algorithm/dfs.rs")])
p("C19","Connected components form the partition generated by the edges",
 "After detection on a graph, and after any further edges fed in one at a time, two known nodes are reported connected exactly when a path of processed edges (ignoring direction) joins them, the component count equals the number of components, and listing the component of a node gives exactly its members. Isolated nodes form their own components, unknown nodes are reported as unknown, the answers do not depend on the order of edges or on earlier queries, and reset forgets everything.",
 ["inputs","histories"],"every graph, every sequence of edge arrivals, queries and resets",
 "Tests run fixed graphs without isolated nodes; order-dependent root chains and queries between arrivals need histories.",
 ["src/algorithm/conn_comp.rs"],[("union with path halving","src/algorithm/conn_comp.rs")],[("parent_ref","parent forest","src/algorithm/conn_comp.rs")])
p("C20","Connected subgraphs partition the graph without losing anything",
 "Enumerating connected subgraphs returns one graph per weakly connected component, of the same direction, which contains exactly that component's nodes, edges and labels. Together they contain every node (isolated ones too) and edge of the input exactly once.",
 ["inputs"],"every graph, directed and undirected, any representation",
 "The two existing tests are unstable and use a fixed graph without isolated nodes.",
 ["src/algorithm/conn_subgraphs.rs"],[("process_nodes/process_edges","src/algorithm/conn_subgraphs.rs")])
p("C21","Graph union contains exactly both operands, the second winning on labels",
 "The union of two graphs has the first operand's direction and exactly the nodes and edges of both; an element present in the second operand carries the second operand's label (possibly none), any other element keeps the first operand's. All forms (function, operators on references, boxes and concrete types) agree, and operands passed by reference are unchanged.",
 ["inputs","configurations"],"every pair of graphs with any overlap, any representation, mixed directions",
 "Tests use disjoint or identical operands.",
 ["src/algorithm/graph_union.rs"],[("add_graph! macro","src/algorithm/graph_union.rs")])
p("C22","Graph difference removes exactly the second operand's nodes and edges",
 "The difference of two graphs has the first operand's direction and exactly those nodes of the first operand that are not in the second, with the edges among them and their labels unchanged. All forms (function, operators on references, boxes and concrete types) agree, and operands passed by reference are unchanged.",
 ["inputs","configurations"],"every pair of graphs with any overlap, any representation, mixed directions",
 "Tests subtract one fixed subgraph.",
 ["src/algorithm/graph_minus.rs"],[("sub_graph! macro","src/algorithm/graph_minus.rs")])
p("C23","Reordering ids is an isomorphism ordered as promised",
 "Reordering node ids renames nodes to 0..n-1 in order of non-decreasing degree (in plus out for directed graphs), reordering label ids orders used labels by non-decreasing frequency, and in both cases the result is the same labelled graph under the reported renaming: edges, direction, label texts, adjacency and counts are preserved. Mapping a node to its new id and back is the identity, parts not asked to be reordered are untouched, and applying explicit given maps renames exactly accordingly.",
 ["inputs","configurations"],"every graph and every combination of the three reorder options or explicit maps",
 "Tests reorder two fixed graphs with distinct degrees and frequencies.",
 [GM],[("reorder_id/reorder_id_with/ReorderResult",GM)])
p("C24","Graph generators produce exactly the promised family",
 "The empty generator yields n isolated nodes 0..n-1; the complete generator yields every pair of distinct nodes (both directions when directed); the G(n,m) generator yields exactly m distinct edges, any m of the pairs being possible and none favoured, and G(n,p) any simple subset, each pair with probability p, so that it is empty for p=0 and complete for p=1. No self-loops are produced, every node and edge carries one of the offered labels, any of them being possible (none if none offered), offered label ids follow the given order, and impossible parameters are refused.",
 ["inputs","configurations"],"every n, m, p, label set and direction, every random outcome",
 "Tests check counts for one or two sizes.",
 ["src/graph_gen/general.rs","src/graph_gen/random.rs","src/graph_gen/helper.rs"],[("complete_edge_pairs","src/graph_gen/helper.rs"),("empty/complete","src/graph_gen/general.rs"),("gnp/gnm","src/graph_gen/random.rs")])
p("C25","Mutable handles reach every element once and change only its label",
 "The mutable node and edge views enumerate each node and each edge exactly once with the identity and label the immutable views report, and setting a label id through a handle changes exactly that element's label id. Looking up a mutable handle succeeds exactly for elements that exist.",
 ["histories","inputs"],"every graph and every subset of elements written through handles, followed by any history",
 "Tests increment labels on one fixed graph.",
 [GM,GN,GE,"src/generic/node.rs","src/generic/edge.rs"],[("nodes_mut/edges_mut/get_node_mut/get_edge_mut",GM),("neighbors_iter_mut",GN)])
p("C26","Queries about absent or extreme ids are safe and uniform",
 "On every representation, asking for a node, edge, label or removal with an id the graph does not hold (including the largest id of the type) reports absence and never an arbitrary answer, an endless loop or a crash; adjacency queries about absent nodes are refused. Empty graphs and graphs that use the full capacity of their id type answer all queries and enumerations correctly.",
 ["inputs","configurations"],"every id value of every id type against every graph, including empty and full-capacity graphs",
 "Tests query mostly existing ids of u32 graphs.",
 [GM,SG,MM,EV,SI,"src/generic/dtype.rs"],[("has_node guards",EV),("iteration bounds",SI),("id conversion","src/generic/dtype.rs")])
p("C27","LDBC import builds exactly the dataset's typed graph",
 "Importing an LDBC directory yields one node per distinct entity (a type and identifier pair) mentioned by any recognised file, labelled by its type or, for entities with their own node file, by that file's label column, and one edge per distinct related pair labelled by its relation. Files that are not part of the scheme are ignored, and the number of files a relation is split into does not matter.",
 ["inputs","configurations"],"every dataset directory with any subset of scheme files, both directions",
 "No test covers the import at all.",
 ["src/io/ldbc/scheme.rs","src/io/ldbc/node.rs","src/io/ldbc/relation.rs"],[("Scheme::from_path","src/io/ldbc/scheme.rs"),("Relation::add_edge","src/io/ldbc/relation.rs"),("Node::add_node","src/io/ldbc/node.rs")])
p("C28","Typed memory maps expose exactly the dumped elements",
 "A typed memory map over a file exposes exactly the whole elements stored in it, in order, for every element width and length including zero; full, prefix and suffix slices equal the same slices of the original data, and a slice beyond the end is refused. Dumping any slice writes exactly its bytes.",
 ["inputs","configurations"],"every element type, every length around the write-block size, every slice bound",
 "Tests map the files of two small graphs and never slice.",
 [IM],[("Index impls, dump, typed_as_byte_slice",IM)])
out=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),'properties.jsonl')
with open(out,'w') as f:
    for x in P:
        assert len(x['title'])<=80,(x['id'],len(x['title']))
        f.write(json.dumps(x,ensure_ascii=False)+'\n')
print(len(P))
