import json
P=[]
def p(id,title,statement,over,text,why,files,mech,obs,state=None,hook=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],"observe_at":obs,"hook_needed":hook}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})
AQ="graphannis/src/annis/"
CO="core/src/"
p("P01","Sorted results and result pages",
 "A search lists its matches in ascending (or, inverted, descending) order of text position and returns, for any offset and limit, exactly that slice of the complete list, over one or several corpora. Sorting any container with any consistent comparison yields an ordered permutation of its items, and partially sorting it puts its n smallest items in order at the front.",
 ["inputs","configurations"],"every item sequence, comparison, n, query, corpus list, offset, limit and result order",
 "The sorting tests use one random permutation and the page tests a handful of fixed offsets; pivots are random and partial sorting depends on n, so only a proof covers every input.",
 [AQ+"util/quicksort.rs",AQ+"util/sortablecontainer.rs",AQ+"db/corpusstorage.rs",AQ+"db/sort_matches.rs"],
 [("randomised quicksort with insertion sort",AQ+"util/quicksort.rs#quicksort"),("partial sort for pages",AQ+"util/quicksort.rs#sort_first_n_items"),("page window",AQ+"db/corpusstorage.rs#find_in_single_corpus")],
 ["CorpusStorage::find","quicksort::sort"])
p("P02","Reachability inside a component",
 "Asking which nodes are reachable from (or reach) a node within a distance range returns each node exactly once and exactly those connected by a path without repeated nodes whose length is in the range; the connection test agrees with it, and the distance of two nodes is the length of the shortest path. This terminates on cyclic graphs.",
 ["inputs"],"every finite edge set, start node and inclusive, exclusive or unbounded distance range",
 "Tests enumerate a few hand-written graphs; cycles, diamonds and zero or excluded bounds combine in unboundedly many ways.",
 [CO+"dfs.rs",CO+"graph/storage/adjacencylist.rs",CO+"graph/storage/disk_adjacency.rs",CO+"graph/storage/mod.rs"],
 [("cycle-safe depth first search",CO+"dfs.rs#CycleSafeDFS::enter_node"),("inclusive bound",CO+"graph/storage/mod.rs#inclusive_max_distance"),("shortest path",CO+"graph/storage/mod.rs#shortest_distance")],
 ["GraphStorage::find_connected","GraphStorage::find_connected_inverse","GraphStorage::is_connected","GraphStorage::distance"])
p("P03","Adding and deleting edges and edge annotations",
 "After any history of adding and deleting edges, edge annotations and nodes, an edge is listed as outgoing of its source exactly when it is listed as ingoing of its target, and exactly when it was added and not deleted since. Annotations exist only on existing edges, disappear with them, and no other edge or annotation changes.",
 ["histories"],"every finite sequence of edge, edge annotation and node operations on a writable component",
 "Tests delete at most one edge; the two directions are kept in separate sorted structures which can drift apart only after particular sequences.",
 [CO+"graph/storage/adjacencylist.rs",CO+"graph/storage/disk_adjacency.rs"],
 [("forward and inverse adjacency lists",CO+"graph/storage/adjacencylist.rs#add_edge"),("edge removal",CO+"graph/storage/adjacencylist.rs#delete_edge"),("node removal",CO+"graph/storage/adjacencylist.rs#delete_node")],
 ["WriteableGraphStorage","EdgeContainer"],[("edges","targets per source",CO+"graph/storage/adjacencylist.rs"),("inverse_edges","sources per target",CO+"graph/storage/adjacencylist.rs")])
p("P04","Optimised storages answer like the edges they were copied from",
 "Copying a component into any storage implementation that is suitable for its shape, and saving and loading it again, preserves its edges, edge annotations, sources, roots, reachability, connection tests and distances. Copying replaces all previous content.",
 ["inputs"],"every component whose shape the implementation supports (chains, forests, acyclic graphs, fan-out one), every query and range",
 "Tests use one small fixture per implementation and a few distances; position arithmetic and bound handling fail only at particular offsets and sizes.",
 [CO+"graph/storage/linear.rs",CO+"graph/storage/prepost.rs",CO+"graph/storage/dense_adjacency.rs",CO+"graph/storage/disk_path.rs"],
 [("position in chain",CO+"graph/storage/linear.rs#find_connected"),("pre/post order intervals",CO+"graph/storage/prepost.rs#find_connected"),("path per node",CO+"graph/storage/disk_path.rs#path_for_node")],
 ["GraphStorage"])
p("P05","Choosing a storage never loses edges",
 "The statistics of a component state truthfully whether it has cycles, is a forest, its largest fan-out and its depth, and the implementation chosen from them can represent the component completely. Optimising a graph therefore changes no query result.",
 ["inputs","configurations"],"every edge set and both memory and disk based graphs",
 "Tests check statistics of two cyclic and a few tree graphs; unreachable cycles, boundary sizes of the narrow integer types and mixed components are not sampled.",
 [CO+"graph/storage/registry.rs",CO+"graph/storage/adjacencylist.rs",CO+"graph/storage/disk_adjacency.rs",CO+"graph/mod.rs"],
 [("heuristic choice",CO+"graph/storage/registry.rs#get_optimal_impl_heuristic"),("statistics",CO+"graph/storage/adjacencylist.rs#calculate_statistics")],
 ["registry::get_optimal_impl_heuristic","Graph::optimize_gs_impl"])
p("P06","In-memory annotations behave like a map with searches",
 "After any history of inserting and removing annotations and items, looking up an annotation returns the value last inserted and not removed, and every search by name, namespace, value, pattern or item returns exactly the annotations a scan over that map would. Counts equal the size of the map, also after clearing or reloading.",
 ["histories"],"every sequence of insert, remove, clear, save and load, for every search form",
 "Tests insert a handful of annotations and remove one or two; indexes, reference counts and recycled identifiers diverge only after longer histories.",
 [CO+"annostorage/inmemory.rs",CO+"annostorage/symboltable.rs"],
 [("interned keys and values",CO+"annostorage/symboltable.rs#insert"),("inverted index",CO+"annostorage/inmemory.rs#remove_element_from_by_anno")],
 ["AnnotationStorage"],[("by_container","annotations per item",CO+"annostorage/inmemory.rs"),("by_anno","items per key and value",CO+"annostorage/inmemory.rs")])
p("P07","On-disk annotations behave like a map with searches",
 "The disk based annotation storage gives, for any history of inserting and removing annotations and items, the same answers to every lookup, search, count and value listing as a plain map. Saving and reloading changes nothing.",
 ["histories"],"every sequence of operations, every name and value including empty ones and ones with special characters, and every search form",
 "Tests mirror the handful of in-memory cases; the composed byte keys misbehave only for particular values and after overwrites.",
 [CO+"annostorage/ondisk.rs"],
 [("composed byte keys",CO+"annostorage/ondisk.rs#create_by_anno_qname_key"),("overwriting",CO+"annostorage/ondisk.rs#insert")],
 ["AnnotationStorage"])
p("P08","The on-disk table is a sorted map",
 "Whatever sequence of inserts, removals, compactions, clearing and writing to disk is applied, reading a key of the on-disk table returns the last inserted value unless it was removed afterwards, and iterating any range returns exactly the present keys of the range in ascending order, once each.",
 ["histories"],"every sequence of operations, every point at which in-memory data is evicted to disk, every range",
 "Tests use one or two tables in a fixed state; shadowing between the memory, temporary and persistent layers depends on the order of removal and eviction.",
 [CO+"util/disk_collections.rs",CO+"serializer.rs"],
 [("layered lookup",CO+"util/disk_collections.rs#get"),("merge iteration",CO+"util/disk_collections.rs"),("eviction",CO+"util/disk_collections.rs#evict_c0")],
 ["DiskMap"])
p("P09","Byte keys decode to what was encoded and keep the order",
 "Encoding an identifier, edge or text as a byte key and decoding it gives the original value, different values have different keys, and the byte order of keys of unsigned numbers, edges and identifiers is the order of the values.",
 ["inputs"],"every value of every key type",
 "Round trips are only exercised with the few identifiers of the fixtures; sign, byte order and length mistakes need particular values.",
 [CO+"serializer.rs",CO+"annostorage/ondisk.rs"],
 [("fixed-size big-endian keys",CO+"serializer.rs")],
 ["KeySerializer","FixedSizeKeySerializer"])
p("P10","Updates are applied as if one after another",
 "Applying a list of changes leaves the corpus exactly as applying each change in order to a plain model: nodes, labels, edges and edge labels exist as last requested, deleting a node removes its labels and all its edges in every component, and changes that refer to missing nodes have no effect. Splitting the list into several updates gives the same corpus.",
 ["histories"],"every list of update events and every way to split it",
 "Tests apply short fixed lists; dangling edges and stale inherited information need deletions in particular positions.",
 [CO+"graph/mod.rs",CO+"graph/update.rs",AQ+"types.rs",AQ+"db/aql/model.rs"],
 [("event application",CO+"graph/mod.rs#apply_update_in_memory"),("derived components",AQ+"db/aql/model.rs")],
 ["CorpusStorage::apply_update","Graph::apply_update"])
p("P11","Saved corpora and logged updates survive restarts",
 "Once an update was reported as applied, opening the corpus again, also after the process stopped before the background write finished, shows every change of all reported updates and nothing else. Saving and reloading a corpus changes no search result, and update lists read back from storage contain the same events in the same order.",
 ["crash_points","histories"],"every sequence of updates and every point at which the process stops",
 "Tests reload one graph with one log file; no test stops between two updates or during the background write.",
 [CO+"graph/mod.rs",CO+"graph/update.rs",AQ+"db/corpusstorage.rs"],
 [("write-ahead log",CO+"graph/mod.rs#persist_updates"),("background write",CO+"graph/mod.rs#background_sync_wal_updates"),("event serialisation",CO+"graph/update.rs")],
 ["Graph::apply_update","Graph::open","GraphUpdate"])
p("P12","Operators find exactly the pairs they accept",
 "For every query operator and range, listing the partners of a node returns exactly the nodes for which the operator's test of the pair succeeds, and the inverse operator lists the same pairs from the other side. The accepted pairs are those of the documented meaning over token positions, coverage and edges.",
 ["inputs"],"every operator, distance range, segmentation and annotated graph with linear texts",
 "Tests count matches of fixed queries on a few corpora; a search may be planned with the test, the listing or the inverse listing, and only one of them is sampled per query.",
 [AQ+"operator.rs",AQ+"db/aql/operators/precedence.rs",AQ+"db/aql/operators/near.rs",AQ+"db/aql/operators/overlap.rs",AQ+"db/aql/operators/inclusion.rs",AQ+"db/aql/operators/identical_cov.rs",AQ+"db/aql/operators/identical_node.rs",AQ+"db/aql/operators/edge_op.rs",AQ+"db/aql/operators/equal_value.rs",AQ+"db/aql/operators/leftalignment.rs",AQ+"db/aql/operators/rightalignment.rs",AQ+"db/aql/operators/arity.rs",AQ+"db/aql/operators/negated_op.rs",AQ+"db/aql/operators/non_existing.rs"],
 [("pair test","BinaryOperatorBase::filter_match"),("partner listing","BinaryOperatorIndex::retrieve_matches"),("inverse","BinaryOperatorBase::get_inverse_operator")],
 ["CorpusStorage::find"],None,"--cfg graphannis_verif")
p("P13","Search results equal the meaning of the query",
 "A conjunctive query returns exactly the tuples of nodes that satisfy every node condition and operator, each tuple once, with nodes in query order; a disjunction returns the union without duplicates. Join strategy, operand order, parallel execution and storage format do not change the result set, and counting returns its size.",
 ["inputs","programs","configurations"],"every supported query over every annotated graph, with and without parallel execution",
 "Tests run fixed queries against fixed counts with one plan each; plans depend on estimates and therefore on the data.",
 [AQ+"db/plan.rs",AQ+"db/aql/conjunction.rs",AQ+"db/exec/nestedloop.rs",AQ+"db/exec/indexjoin.rs",AQ+"db/exec/parallel/nestedloop.rs",AQ+"db/exec/parallel/indexjoin.rs",AQ+"db/exec/filter.rs",AQ+"db/exec/nodesearch.rs",AQ+"db/exec/tokensearch.rs"],
 [("planner",AQ+"db/aql/conjunction.rs#make_exec_node"),("nested loop join",AQ+"db/exec/nestedloop.rs"),("index join",AQ+"db/exec/indexjoin.rs"),("duplicate removal",AQ+"db/plan.rs")],
 ["CorpusStorage::find","CorpusStorage::count"],None,"--cfg graphannis_verif")
p("P14","Cost estimates never make a query fail",
 "Estimating the cost of any query on any corpus, however large its ranges or the corpus statistics, neither fails nor overflows, and a conjunction of two parts is never estimated to have more results than the product of the estimates of its parts. Wrong estimates change only the speed of a search, not its results.",
 ["inputs"],"every pair of part estimates, selectivity, distance range and statistics",
 "Tests run queries with small ranges on small corpora where no estimate comes near a limit.",
 [AQ+"db/exec/mod.rs",AQ+"db/exec/filter.rs",AQ+"db/exec/nestedloop.rs",AQ+"db/aql/operators",AQ+"db/aql/conjunction.rs"],
 [("join estimation",AQ+"db/exec/mod.rs#ExecutionNodeDesc::join"),("operator estimates",AQ+"db/aql/operators")],
 ["CorpusStorage::plan","CorpusStorage::count"],None,"--cfg graphannis_verif")
p("P15","Names in results and on disk are unambiguous",
 "The textual form of a match can be split again into the same nodes and annotation keys, and encoding a name for matches, file names or component folders is reversible, so two different names never get the same encoded form.",
 ["inputs"],"every node, namespace, annotation, corpus and component name",
 "Tests parse two fixed matches; separators, percent signs and non-ASCII characters in names are hardly sampled.",
 [AQ+"util/mod.rs",AQ+"db/corpusstorage.rs",CO+"graph/mod.rs",CO+"util/mod.rs"],
 [("match parsing",AQ+"util/mod.rs#node_names_from_match"),("percent encoding",CO+"util/mod.rs#join_qname")],
 ["CorpusStorage::find","util::node_names_from_match"])
p("P16","GraphML export and import round trip",
 "Exporting a corpus as GraphML and importing the file gives a corpus with the same nodes, annotations, components and edges.",
 ["inputs"],"every corpus","One small fixture is exported and one imported.",
 [CO+"graph/serialization/graphml.rs"],[("export",CO+"graph/serialization/graphml.rs#export"),("import",CO+"graph/serialization/graphml.rs#import")],["CorpusStorage::export_to_fs","CorpusStorage::import_from_fs"])
p("P17","Concurrent use of a corpus storage",
 "Any interleaving of searches, updates, imports, unloads and deletions from several threads gives each search the state of the corpus before or after each update and never deadlocks.",
 ["schedules"],"every interleaving of operations","Tests are single threaded.",
 [AQ+"db/corpusstorage.rs",CO+"graph/mod.rs"],[("cache locks",AQ+"db/corpusstorage.rs"),("graph locks",CO+"graph/mod.rs")],["CorpusStorage"])
p("P18","Context graphs around matches",
 "The graph extracted around matches contains exactly the matched nodes, the tokens within the requested left and right context, all nodes covering them and the edges among them.",
 ["inputs"],"every corpus, match, context size and segmentation","A few fixed corpora and context sizes are tested.",
 [AQ+"db/corpusstorage/subgraph.rs"],[("context iterators",AQ+"db/corpusstorage/subgraph.rs")],["CorpusStorage::subgraph"])
p("P19","relANNIS import",
 "Importing a relANNIS folder creates exactly the documents, nodes, annotations and edges the tables describe.",
 ["inputs"],"every well-formed relANNIS folder","A few fixture corpora are imported.",
 [AQ+"db/relannis.rs"],[("table import",AQ+"db/relannis.rs")],["CorpusStorage::import_from_fs"])
p("P20","Every query string is parsed or rejected",
 "Parsing any text as a query ends with a query or a described error at a position inside the text, and normalising a query into alternatives keeps its meaning.",
 ["inputs"],"every text","Tests parse a handful of valid and invalid queries.",
 [AQ+"db/aql/mod.rs",AQ+"db/aql/ast.rs"],[("parser",AQ+"db/aql/mod.rs"),("normal form",AQ+"db/aql/ast.rs")],["CorpusStorage::validate_query"])
p("P21","The foreign function interface is memory safe",
 "Every object handed to a C caller stays valid until it is freed, is freed once, and no call reads outside the strings and arrays it is given.",
 ["programs"],"every call sequence that follows the documented ownership rules","A few call sequences are tested.",
 ["capi/src"],[("ownership transfer","capi/src/data.rs")],["capi"])
open('/verif/properties.jsonl','w').write("".join(json.dumps(x)+"\n" for x in P))
