#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (run from /verif)."""
import json
P=[]
def p(id,title,statement,over,text,why,files,mech,observe,state=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
        anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=observe,state=state or [],hook_needed=None)))
E="src/engine.rs"
p("C01","From-scratch consistency",
 "After any history of edits to input cells and demands of computations, a demanded result equals what a fresh, cache-free evaluation of the same program on the current inputs would give, no matter how much cached work was reused. This holds for every thunk, every order of edits and demands, edits that are undone, and computations whose set of dependencies itself changes with the inputs.",
 ["programs","histories","inputs"],"every program over named cells and thunks (static, dynamic and conditional dependencies, diamonds, chains) and every history of sets, re-allocations and demands",
 "The tests sample about two dozen fixed programs with at most a handful of edits each; dirtying and cleaning bugs only show on particular interleavings of edits, demands and dependency switches.",
 [E],[("dirtying","engine.rs set_/dirty_alloc/dirty_pred_observers"),("cleaning and re-evaluation","engine.rs DCGDep::clean / clean_comp / loc_produce"),("edge recording","engine.rs force")],["value returned by force/get! versus an independent from-scratch interpreter"])
p("C02","Partial observations never miss a change",
 "A computation that observes a cell only through a projection, or through an abstracted family of mappings, alone or mixed with full observations and other projections of the same cell, always returns the result that a from-scratch run on the current cell contents would return. Once a change alters what any of those observations saw, the next demand reflects it.",
 ["programs","histories","inputs"],"every mix of full, projected and abstracted observations of the same or different cells, and every edit history",
 "Only two unit tests project a cell at all, none mixes projections with full observations, and abstracted mappings are covered by a single scenario.",
 [E],[("projected dependencies","engine.rs force_map / ForceMapDep"),("abstracted dependencies","engine.rs force_abs / ForceAbsDep"),("shared dirty bit","engine.rs get_succ_mut / clean_comp")],["force results"])
p("C03","Allocation inside computations stays consistent",
 "When computations themselves allocate named cells and thunks (including nested calls, recursion, namespaces, allocations whose content depends on inputs, and articulations returned as results for others to demand), every later demand after any edits still equals the from-scratch result. Re-allocating a name with different content, a different argument, or as the other kind of articulation updates everything that observed it.",
 ["programs","histories","inputs"],"every program whose thunks allocate cells and thunks under call-site, argument-derived, forked, paired or namespaced names, and every history of edits",
 "Unit tests have a few fixed list programs; the dirtying of allocators and observers on re-allocation depends on the exact order of allocation, observation and edit.",
 [E],[("cell re-allocation","engine.rs DCG::cell"),("thunk re-allocation","engine.rs DCG::thunk (Nominal)"),("allocation edges","engine.rs dirty_alloc, AllocCell, AllocNominalThunk")],["force results versus from-scratch interpreter"])
p("C04","Structural identity is sound",
 "In structural mode, where programmer names are ignored, a program computes exactly the results it computes with names and from scratch, for any history of edits and demands. Equal content or equal function and arguments share one articulation, different ones never do, and skipping dependency tracking for pure computations never lets a stale result through.",
 ["programs","histories","inputs"],"every program run wholly or partly in structural mode, mixing structural and named parts, and every edit history of the named inputs",
 "The purity tests check two fixed programs; a structural thunk that is only sometimes pure, or two contents that coincide, are not sampled.",
 [E],[("structural naming","engine.rs DCG::cell / DCG::thunk (Structural), structural"),("purity optimization","engine.rs force is_pure")],["force results, equality of returned arts"])
p("C05","Only affected, demanded work is re-executed",
 "Editing inputs runs no computation (at most the projections by which cells are observed); a demand runs each affected computation it needs at most once and only if something it observed really changed, so computations not demanded, not reachable, or whose observations are unchanged never run. A repeated demand without edits runs nothing, and undoing an edit before the next demand leads to no re-execution of computations that observe only that input and are still cached.",
 ["programs","histories"],"every program and every history of edits and demands, counting executions per computation",
 "Unit tests count executions in three fixed scenarios; needless re-execution on other shapes does not change results and so goes unseen.",
 [E],[("cache hit and cleaning","engine.rs force / clean_comp_succs"),("laziness","engine.rs set_")],["execution counters inside thunk bodies, compared with a reference incremental machine"])
p("C06","Unchanged projections and intermediate results are firewalls",
 "If an edit leaves a computation's projected view of a cell unchanged, that computation and everything that depends only on it is neither marked dirty nor re-executed. If a re-executed intermediate computation yields an equal result, the computations that observe only it are not re-executed.",
 ["programs","histories","inputs"],"every layered program with projections and intermediate thunks, every edit that keeps a projection or an intermediate result",
 "Two unit tests fix one projection and one edit each; they do not cover several observers, mixed projections, or chains of firewalls.",
 [E],[("projection pruning","engine.rs ForceMapDep::dirty / clean"),("early cut-off","engine.rs clean_comp")],["execution counters, reflected dirty bits, dirtying trace"])
p("C07","Dependency graph stays well-formed",
 "At every quiescent point the reflected dependency graph has no dangling edges, every observation and allocation edge is recorded at both ends, a dirty edge implies that all edges leading to its source are dirty, and no frame or namespace is left open. Right after a demand succeeds nothing reachable from the demanded computation along observations is dirty, and the reflected values equal those demanded.",
 ["programs","histories"],"every program and every history of edits, demands, re-allocations and namespaces, inspected after every operation",
 "The built-in well-formedness checker is off by default and only run on a few fixed programs; tests never compare both ends of the edges.",
 [E,"src/reflect.rs"],[("edge insertion and revocation","engine.rs loc_produce / revoke_succs"),("dirty transitivity","engine.rs dirty_pred_observers")],["reflected graph"])
p("C08","Names are deterministic and distinct",
 "Building a name from the same parts by the same constructors always yields equal names with equal hashes, and names built differently (different strings or numbers, pairs versus forks, left versus right fork, different nesting or order) are never equal. Forking and pairing never yield the original name nor a name of another branch, so different names identify different articulations.",
 ["inputs"],"every name built from unit, strings, machine integers, pairs and forks, to any depth",
 "Tests use a few small names; collisions between name forms need structured generation.",
 [E,"src/macros.rs"],[("name constructors","engine.rs name_pair, name_fork, name_fork3, name_fork4, name_of_*")],["equality, hashing and printing of names; identity of cells named by them"])
p("C09","Namespaces isolate and restore",
 "Articulations allocated under the same name in different namespaces are different, and those in the same namespace are the same, wherever the namespace is re-entered. The namespace in force is restored when a namespaced region ends, a computation always runs in the namespace where it was allocated (whoever demands it first, and when it is re-executed during change propagation), and demanding never changes the caller's namespace.",
 ["programs","histories"],"every nesting of namespaces, allocations and demands across namespaces, with edits that force re-execution",
 "The single namespace test covers two sibling namespaces without nesting or re-execution.",
 [E],[("path handling","engine.rs ns, loc_produce (st.path)")],["identity of arts, reflected locations, force results"])
p("C10","Names identify articulations over time",
 "Allocating again under a name yields the same articulation, and every holder of it observes the newest content: a cell the newest value, a thunk the newest argument, whichever kind the earlier content was. Cells and thunks with different names never affect one another, unnamed immutable articulations never change and compare by content, and an unnamed thunk behaves like its function.",
 ["histories","inputs"],"every history of allocations, re-allocations as the same or the other kind, sets, demands and comparisons over a pool of names, against a map from names to content",
 "Unit tests reuse a name once or twice; overwriting a thunk by a cell and back, with live observers, is not tested.",
 [E],[("overwriting","engine.rs DCG::cell / DCG::thunk"),("art equality","engine.rs impl PartialEq/Hash for EnumArt")],["force results and art equality versus a map model"])
p("C11","Misuse stops instead of corrupting",
 "Using a name at two different types, re-using a thunk's name for a different function, setting a cell from within a computation, setting an immutable articulation, demanding a cycle without a cycle value, demanding a tracked articulation under the cache-free engine, or nesting trace recording is rejected with a panic and never returns a wrong value. Conversely none of these rejections is ever raised on legal use, including legal re-use of names in separate namespaces.",
 ["programs","histories","inputs"],"every legal history followed by each kind of misuse, at every type combination, at top level or inside a computation",
 "Tests have about four should-panic cases; the type confusion guarded here would be memory-unsafe on any missed path.",
 [E],[("dynamic type check","engine.rs assert_graphnode_res_type / res_node_of_loc"),("program points","engine.rs DCG::thunk; macros.rs prog_pt!"),("set guard","engine.rs DCG::set, set")],["panics"])
p("C12","Cycles terminate with the cycle value",
 "Demanding a computation that leads back to one still running yields the supplied cycle value exactly at the points where the demand would close a cycle, so every demand over a cyclic program terminates, and a program without cycles never sees a cycle value. After inputs change, demands still terminate and, when every computation on the cycle observed the change, equal the results of a fresh engine.",
 ["programs","histories","inputs"],"every directed graph of mutually demanding thunks (self-loops, nested and overlapping cycles), every entry point, and edits of node contents and of edges",
 "One unit test covers one four-node graph without any edit.",
 [E],[("cycle detection","engine.rs force is_cycle, cleaning stack"),("self-edges","engine.rs dirty_pred_observers")],["results versus a depth-first reference evaluation"])
p("C13","Engines are isolated and agree",
 "Swapping engines in and out preserves each engine's whole state: what happens under one never changes values, cached work or flags of another, and a swap returns the engine that was active. The same program gives the same results under the caching engine and the cache-free engine, and an engine is always reported as the kind it is.",
 ["programs","histories"],"every interleaving of swaps among several engines with allocations, edits and demands in each",
 "The tests initialize one engine each and never swap back to one that holds state.",
 [E],[("engine swapping","engine.rs manage::use_engine/init_engine/init_dcg/init_naive"),("naive engine","engine.rs cell/thunk/force on Engine::Naive")],["force results, execution counters, engine predicates"])
p("C14","Recorded traces are faithful",
 "A recorded trace reports exactly what happened: one evaluation per execution of user code, a fresh-allocation event exactly for articulations that did not exist, changed or unchanged content exactly as compared, a dirtying event exactly for each edge that turned dirty, and every cleaning that either keeps or re-evaluates, properly nested. Recording never changes results or work done, the counts reported for a trace equal the events in it, and unbalanced debugging extents are the only way to end with a malformed trace.",
 ["programs","histories"],"every program and history, recorded over any stretch of operations",
 "Tests only print traces; they assert a count in one scenario.",
 [E,"src/reflect.rs"],[("trace recording","engine.rs dcg_effect_begin!/dcg_effect_end!"),("counting","reflect.rs trace::trace_count")],["the recorded trace, execution counters, reflected graphs before and after"])
p("C15","Reflection reproduces values and never fails",
 "Reflecting any value built from structs, enums, tuples, lists, strings, integers, names and articulations reproduces its constructor structure, field names and contents exactly, whatever characters its strings hold and however deeply it nests. Reflecting the graph or printing names and locations succeeds in any reachable state and reports every articulation under the location that holds it.",
 ["inputs","histories"],"every nesting of derived-Debug values over strings, integers, names, locations, vectors, tuples, structs and enum constructors",
 "The parser tests cover about a dozen literals.",
 ["src/parse_val.rs","src/reflect.rs",E],[("value parser","parse_val.rs parse_val"),("reflection","engine.rs Reflect impls; reflect.rs")],["reflected value versus the structure it was built from"])
p("C16","Incremental lists behave like lists",
 "Construction, generation, elimination, append, reversal, mapping, filtering, folding, merging, and conversion to and from ordinary vectors agree with the same operations on ordinary sequences, for any placement of names and articulations in the list, any element values, and any length limit. Names and articulations never change the element sequence.",
 ["inputs"],"every list with arbitrary interleaving of elements, names and articulations, under both engines",
 "Tests use ten-element lists with regular structure.",
 ["src/catalog/collections.rs"],[("list operations","collections.rs list_*, ListIntro, ListElim")],["vector of elements versus plain sequence model"])
p("C17","Trees preserve their sequences",
 "Converting a list to a tree and back in either direction, filtering, pruning, copying and folding (upwards, sequentially in either direction, and with names passed down) over the tree agree with the element sequence of the original list, whatever names and articulations shape the tree. No level exceeds that of an enclosing node, and the two traversal directions yield reversals of one another.",
 ["inputs"],"every input list with arbitrary names, levels and elements, both directions",
 "Tests convert a few fixed-size regular lists.",
 ["src/catalog/collections.rs"],[("conversion","collections.rs tree_of_list / list_of_tree"),("folds","collections.rs tree_fold_seq / tree_fold_up / filter_tree")],["element sequences and fold results"])
p("C18","Merge sort sorts",
 "Every merge sort over any tree returns an ordered permutation of the elements, including duplicates, already sorted, empty and single-element input, and merging two ordered lists yields the ordered combination. This holds for the initial run and for every incremental re-run after edits.",
 ["inputs","histories"],"every list of elements with arbitrary structure, all sorting variants, followed by edits",
 "Tests compare against a library sort for one regular size series.",
 ["src/catalog/collections.rs"],[("merge sort","collections.rs list_merge / mergesort_list_of_tree*")],["sorted output versus sorted model"])
p("C19","Collection pipelines update incrementally and correctly",
 "A pipeline of list and tree passes (mapping, filtering, reversing, sorting, folding, conversions), each in its own namespace, over a list whose tail articulations are mutable cells, gives after any sequence of insertions, removals and replacements of list segments exactly the result of running the pipeline on the edited list from scratch, both under caching and without it. Demanding again without an edit does no work, and bringing the result up to date after edits takes no more executions of computations, and no more calls of the functions given to the passes, than a run from scratch would.",
 ["programs","histories","inputs"],"every short pipeline and every sequence of list edits",
 "Edit tests run one pipeline shape at a time with random inserts only, and only in a bench-like driver.",
 ["src/catalog/collections.rs",E],[("passes","collections.rs"),("change propagation","engine.rs")],["pipeline outputs versus plain vectors"])
p("C20","Bit strings act as bit vectors",
 "Building, prepending, flipping, testing, shifting and measuring bit strings agree with a vector-of-bits model for every value and length within the supported maximum, keeping leading zeros significant. Bit strings are equal, and hash equally, exactly when they have the same bits.",
 ["inputs"],"every bit string up to the supported length and every operation sequence",
 "There are no tests of the bit string operations themselves.",
 ["src/catalog/bitstring.rs"],[("bit strings","bitstring.rs")],["operation results versus bit vector model"])
p("C21","Articulation equality and mapping are faithful",
 "A mapped articulation always yields the mapping of what the underlying articulation currently yields, also inside other computations and after edits, and mapped articulations of different functions or sources are never taken for one another. Equal articulations always have equal hashes and yield equal results, and equality is reflexive, symmetric and transitive.",
 ["programs","histories","inputs"],"every mix of cells, thunks, immutable and mapped articulations, compared pairwise and demanded across edits",
 "One test maps one thunk once.",
 [E],[("mapping","engine.rs thunk_map"),("equality and hashing","engine.rs EnumArt, NaiveThunk, Loc")],["force results, equality and hash of arts"])
p("C22","List-based maps and sets act as maps and sets",
 "The finite maps and sets built over lists answer membership, lookup and intersection exactly as ordinary maps and sets do after any sequence of insertions, including overwritten keys and interposed names and articulations. Folding visits the bindings from the oldest to the newest, so rebuilding from a fold yields the same map or set.",
 ["inputs","histories"],"every sequence of updates and queries",
 "No test covers these containers directly.",
 ["src/catalog/collections.rs"],[("maps and sets","collections.rs MapIntro/MapElim, SetIntro/SetElim")],["query results versus standard maps and sets"])
p("C23","Engine options do not change results",
 "Turning on well-formedness checking, turning off the purity optimization, ignoring names in favour of structural identity, or recording a trace changes no result of any legal program under any edit history, and the checker never rejects a legal program. Options set by environment variables have the same effect as options set on the engine.",
 ["programs","histories","configurations"],"every combination of options, every program and history",
 "Tests run with default options only.",
 [E],[("flags","engine.rs Flags, DCG::new, wf::check_dcg")],["results under each option combination"])
p("C24","Tries hold exactly their elements",
 "A trie assembled from its constructors contains exactly the elements of its leaves: membership, emptiness, lookup, folds and splitting agree with a set model, whatever names and articulations are interposed. The same answers come under both engines and after edits of the articulated parts.",
 ["inputs","histories"],"every trie assembled from leaves, branches, names and articulations",
 "The existing trie tests rely on an unimplemented extension operation and fail.",
 ["src/catalog/trie.rs"],[("tries","trie.rs Trie, MetaT, TrieIntro, TrieElim")],["query results versus set model"])
p("C25","Convenience forms mean what they abbreviate",
 "Every convenience form for cells, thunks, memoized calls, labelled lets, demands, name forking and namespaces behaves exactly as the primitive operations it abbreviates: arguments arrive in order, the given name identifies the articulation, omitted names give unnamed or freshly named ones, and untracked extra arguments reach the function unchanged. Distinct functions used through these forms are always kept apart.",
 ["inputs","programs","histories"],"every form over generated names, arguments and edits, under both engines",
 "Doc tests show one use each with fixed arguments.",
 ["src/macros.rs"],[("macros","macros.rs cell!, thunk!, memo!, eager!, let_memo!, let_cell!, get!, fork!, forko!")],["results and identities versus primitive calls"])
p("C26","Catalogue passes redo only what an edit affects",
 "After edits of a list, a demand of the result of catalogue passes over it (mapping, filtering, conversion between lists and trees, folding, sorting) calls the user's function, predicate, comparison, level or operation again only in the parts between two names whose input, or an intermediate result that they read, has changed, once for each time they occur there. Lazy passes and sorts do only the part that is demanded, from the first run on, and edits themselves call nothing.",
 ["programs","histories","inputs"],"every short pipeline of passes, every sequence of list edits and every extent of demand",
 "Tests compare results only; a pass that recomputes everything, or is no longer lazy, gives the same results.",
 ["src/catalog/collections.rs",E],[("names as boundaries of reuse","collections.rs memo!/eager!/thunk! at each Name case"),("laziness","collections.rs list_map_lazy, list_filter_lazy, list_merge"),("change propagation","engine.rs")],["number of calls of the functions given to the passes, per demand"])
p("C27","Graph files show the graph",
 "While the option to write graphs is set, the engine writes consecutively numbered files, each a well-formed graph in the DOT language whatever names the program uses. After every operation, the newest file shows exactly the current dependency graph: a box for each cell, and the edges of each thunk in order, coloured by whether they are dirty, observations or allocations.",
 ["programs","histories","inputs"],"every program and history, with any names, and the file after every step",
 "No test writes graphs to files.",
 [E],[("graph files","engine.rs wf::check_dcg, wf::write_next_dcg, wf::write_dcg_file")],["contents of the files versus the reflected graph"])
with open('/verif/properties.jsonl','w') as f:
    for x in P:
        assert len(x['title'])<=80 and x['statement'].count('. ')<=2, x['id']
        f.write(json.dumps(x)+"\n")
print(len(P))
