"""Regenerates /verif/properties.jsonl (kept as Python so that statements stay readable)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    d = dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
             anchors=dict(files=["src/pybgl/" + f for f in files], mechanism=[dict(name=n, where="src/pybgl/" + w) for n, w in mech]))
    if state: d["anchors"]["state"] = [dict(name=n, meaning=m) for n, m in state]
    if observe: d["anchors"]["observe_at"] = observe
    P.append(d)

HIST = ["histories"]; INP = ["inputs"]; BOTH = ["histories", "inputs"]

p("C01", "Directed graphs are a directed multigraph under every history",
  "After any sequence of vertex and edge insertions and removals (and clear) on a directed graph, every query - vertices, edges, counts, emptiness tests, out-edges, out-degree, edge lookup, source and target, called as a method or as a free function - reports exactly the multigraph that the sequence denotes, with parallel edges and self-loops kept apart. "
  "Removing an edge removes that edge only, removing a vertex removes it and exactly its incident edges, new vertices get consecutive identifiers that are never handed out twice before a clear, and a new edge's descriptor differs from those of all edges present. "
  "Looking up the edge between two vertices finds it exactly when one and only one such edge exists.",
  HIST, "every finite sequence of add/remove vertex/edge/clear operations, interleaved with queries",
  "The tests check a handful of fixed short histories; parallel edges after removals, identifier gaps and clear-then-reuse histories are not sampled.",
  ["graph.py"], [("DirectedGraph", "graph.py"), ("IncidenceGraph", "incidence_graph.py")],
  [("adjacencies", "who points at whom, with distinguishers"), ("last_vertex_id", "next identifier")], ["public query methods and free functions"])
p("C02", "Undirected graphs are an undirected multigraph under every history",
  "After any sequence of vertex and edge insertions and removals (and clear) on an undirected graph, each present edge is listed exactly once by the graph, is listed by the out-edges and by the in-edges of both of its endpoints (oriented away from the endpoint asked for, a self-loop once), and by no other vertex. "
  "Degrees, counts, vertex listing and edge lookup in both directions agree with that, whichever endpoint order was used to insert or remove the edge. "
  "Removing one of several parallel edges, in either orientation, leaves the others, and removing a vertex removes exactly its incident edges.",
  HIST, "every finite sequence of operations on undirected graphs, including parallel edges, loops and edges given from either end",
  "The tests exercise one small undirected graph; the two mirrored adjacency entries must agree after every history.",
  ["graph.py"], [("UndirectedGraph", "graph.py")])
p("C03", "Incoming and outgoing edge listings always mirror each other",
  "On graphs and automata that support incoming edges, after any sequence of insertions and removals of vertices and edges, an edge is listed among the incoming edges of its target if and only if it is listed among the outgoing edges of its source, and each in-degree is the number of incoming edges. "
  "Reversing such a graph exchanges incoming with outgoing edges and source with target without changing the set of edges or vertices, and reversing twice restores the original behaviour. "
  "This holds for plain graphs, edge-labelled automata and node-labelled automata, including self-loops, parallel edges and transitions to state 0.",
  HIST, "every finite history of mutations on IncidenceGraph, IncidenceAutomaton and IncidenceNodeAutomaton, with reversals in between",
  "The mirrored in-adjacency is updated by hand in each mutator; the tests remove only a few edges and vertices of fixed graphs.",
  ["incidence_graph.py", "incidence_automaton.py", "incidence_node_automaton.py", "reverse.py"],
  [("in_edges", "incidence_graph.py"), ("reverse_graph", "reverse.py"), ("IncidenceAutomaton.remove_vertex", "incidence_automaton.py")])
p("C04", "Deterministic automata keep one transition per state and symbol",
  "After any history of state and transition insertions and removals and changes of the initial and final flags, a deterministic automaton reports exactly the transition function, initial state, final states, outgoing symbols, alphabet and completeness that the history denotes; a second transition on the same state and symbol is refused and changes nothing, whatever the states' identifiers. "
  "Running a word from a state follows exactly those transitions and falls into the bottom state as soon as one is missing, and a word is accepted exactly when the run from the initial state ends in a final state; inserting a word as a string makes the automaton accept that word. "
  "Automata built from a list of transitions with named states have exactly those transitions between the corresponding states, and the given initial and final states.",
  BOTH, "every history of mutations on Automaton, NodeAutomaton and their incidence variants, every word, every transition list",
  "Tests build small fixed automata whose transitions rarely lead to state 0 and never race two transitions on a symbol.",
  ["automaton.py", "node_automaton.py", "incidence_automaton.py", "incidence_node_automaton.py"],
  [("Automaton.add_edge/delta", "automaton.py"), ("NodeAutomaton.add_edge/delta", "node_automaton.py"), ("make_automaton", "automaton.py"), ("make_node_automaton", "node_automaton.py")])
p("C05", "Non-deterministic automata accept exactly the language of their runs",
  "After any history of state and transition insertions and removals and changes of initial and final flags, a non-deterministic automaton reports exactly its transitions, alphabet (without the empty-word symbol), outgoing symbols, initial and final states. "
  "The set of states reached from a set of states by empty-word moves is exactly the reflexive and transitive closure, the states reached by a symbol or by a word are exactly those reached by some run with arbitrarily many empty-word moves in between, and a word is accepted exactly when some run from an initial state ends in a final state. "
  "The empty-word symbol may be chosen freely and never counts as an input symbol, and the set of initial states given at the start is left as it is.",
  BOTH, "every history on Nfa, every epsilon structure including cycles, every word",
  "Three fixed automata are tested; epsilon cycles, several initial states and removals are not.",
  ["nfa.py"], [("delta_epsilon", "nfa.py"), ("delta_word", "nfa.py"), ("accepts", "nfa.py")])
p("C06", "A graph view shows exactly the relevant part of its graph",
  "A view over a graph lists exactly the vertices declared relevant and exactly the edges that are declared relevant and whose two endpoints are relevant; its counts, degrees and per-vertex out- and in-edge listings agree with that, and changes to the underlying graph show through. "
  "Combining two views of the same graph by union or intersection keeps a vertex or an edge's relevance exactly when either, respectively both, declare it, and by difference a vertex exactly when the first declares it and the second does not, an edge exactly when the first declares it and the second does not, or declares neither of its endpoints; an edge shown by a combination always has both endpoints shown. "
  "Algorithms run over a view behave as on the graph consisting of that part only.",
  BOTH, "every graph, every pair of relevance predicates, every nesting of the three combinators, every later mutation of the graph",
  "The tests combine two fixed views of one graph.",
  ["graph_view.py"], [("GraphView.__or__/__and__/__sub__", "graph_view.py"), ("GraphView.edges", "graph_view.py")])
p("C07", "The priority queue pops in order under every history",
  "After any sequence of creations from an iterable, pushes, pops and decrease-key operations, popping the priority queue returns an element that no remaining element precedes for the order in use, its length and emptiness are those of the multiset of remaining elements, and no element is lost or duplicated. "
  "Among elements that are equivalent for a total preorder, the one inserted first comes out first, and iterating over the queue lists the elements in the order in which they would be popped without modifying it. "
  "When the key of an element is computed from mutable data, re-evaluating it through decrease-key makes the queue use the new key; ordering by a user-supplied preorder compares any two objects consistently with that preorder.",
  HIST, "every sequence of heap operations, every key assignment with ties, every preorder",
  "Tests push a fixed list and pop it; ties, re-keying in the middle and decreasing keys to arbitrary places are not explored.",
  ["heap.py"], [("Heap", "heap.py"), ("Comparable", "heap.py")])
p("C08", "Breadth-first search follows its event protocol in level order",
  "For every graph, set of sources and push filter, breadth-first search discovers exactly the vertices reachable from the sources through accepted edges, each once, examines each of them once in non-decreasing order of hop distance, finishes each before examining the next, and examines every accepted outgoing edge of each of them exactly once between its examination and its finish. "
  "Each examined edge is reported either as a tree edge, immediately followed by the discovery of its target which was unseen, or as a non-tree edge with a gray or black target according to whether that target is still pending or finished; tree edges form shortest-hop paths from the sources. "
  "Single-source search first initialises every vertex, and the colour map, as the visitor sees it at each event too, shows unseen vertices white, pending ones gray and finished ones black, and ends with exactly the discovered vertices black; the tree variant of the traversal visits a tree level by level, each node once with each of its edges.",
  INP, "every finite graph (directed, undirected, view, automaton), source set, initial colour map and push filter, any edge order",
  "One fixed graph is tested and only the visited vertices are looked at; level order and event order are not.",
  ["breadth_first_search.py", "graph_traversal.py"], [("breadth_first_search_graph", "breadth_first_search.py"), ("bfs_tree", "graph_traversal.py")])
p("C09", "Depth-first search follows its event protocol with correct edge classes",
  "For every graph, choice of sources and push filter, depth-first search discovers exactly the vertices reachable from the sources through accepted edges that are not already coloured, each once, and examines each accepted outgoing edge of each of them exactly once. "
  "Discoveries and finishes nest like parentheses: an examined edge is a tree edge exactly when its target is unseen (and the target is then discovered and finished before the edge's source goes on), a back edge exactly when its target is discovered but unfinished, and a forward-or-cross edge exactly when its target is finished; at each of these events the colour map shows unseen vertices white, unfinished ones gray and finished ones black. "
  "Searching a graph from several sources (all vertices by default, none if the given collection is empty) starts a search exactly at each source still unseen when its turn comes and ends with exactly the discovered vertices black; the tree variant of the traversal visits each node of a tree once before any node of its siblings' pending subtrees, with each of its edges.",
  INP, "every finite graph, source collection, colour map, push filter and edge order",
  "One fixed graph is tested; edge classification drives cycle detection, components, sorting, pruning and copying.",
  ["depth_first_search.py", "graph_traversal.py"], [("depth_first_search", "depth_first_search.py"), ("depth_first_search_graph", "depth_first_search.py"), ("dfs_tree", "graph_traversal.py")])
p("C10", "Dijkstra computes exact shortest distances and all shortest-path edges",
  "For every graph with non-negative weights and every source, the computed distance of each vertex is the minimum weight of a path from the source (zero for the source, infinity when unreachable), vertices are examined exactly once each in non-decreasing order of distance, and the recorded predecessor edges of a vertex other than the source are exactly the edges ending a shortest path to it (for positive finite weights). "
  "The extracted path to a target is a shortest path made of consecutive edges from source to target, the extracted sub-graph for all paths is exactly the set of edges lying on some shortest path to the target (and one shortest path when a single path is asked for), and the point-to-point search returns such a path, or nothing if the target is unreachable. "
  "The same holds for other totally ordered path algebras supplied through the comparison and the combination operators (such as widest path, or most reliable path).",
  INP, "every finite weighted graph, source, target and supported path algebra, including ties, zero weights, loops and parallel edges",
  "Two small fixed graphs are tested; the tie handling in relaxation and the re-keying of the queue are only exercised by specific weight patterns.",
  ["dijkstra_shortest_paths.py", "heap.py", "algebra.py"], [("dijkstra_shortest_paths_iteration", "dijkstra_shortest_paths.py"), ("make_shortest_paths_dag", "dijkstra_shortest_paths.py"), ("Heap.decrease_key", "heap.py")])
p("C11", "Strong components are exactly the classes of mutual reachability",
  "For every directed graph, two vertices get the same component number exactly when each is reachable from the other, every vertex gets a number, the numbers are exactly zero up to the returned count minus one. "
  "Numbers are assigned in reverse topological order: an edge between two different components goes from the higher number to the lower.",
  INP, "every finite directed graph", "Two fixed graphs are tested.",
  ["strong_components.py", "depth_first_search.py"], [("strong_components", "strong_components.py")])
p("C12", "Topological sort orders every acyclic graph and refuses every cyclic one",
  "For every directed graph without a cycle, the returned sequence contains each vertex exactly once and every edge goes from an earlier to a later vertex; for every directed graph with a cycle (self-loops included) the sort raises an error instead of returning. "
  "A sequence supplied by the caller is the one that is filled.",
  INP, "every finite directed graph", "Two fixed graphs are tested.",
  ["topological_sort.py", "depth_first_search.py"], [("topological_sort", "topological_sort.py"), ("back_edge", "depth_first_search.py")])
p("C13", "Copying, extracting and cutting follow the relevant reachable part exactly",
  "Copying a graph or an automaton from a source creates exactly one new vertex per vertex reachable from the source through relevant edges to relevant vertices, and exactly one new edge per relevant edge between them, related to the originals (labels included) by the reported vertex and edge mappings; each duplication callback is called exactly once per copied vertex and edge, and the original is unchanged. "
  "Extracting calls its callbacks exactly once for each vertex and each edge of that same part. "
  "Cutting from a source returns exactly the targets of the cutting edges met together with the reached sinks that no cutting edge leaves, where searching does not go past a cutting edge.",
  INP, "every finite graph, source, pair of relevance predicates and cut predicate",
  "One small graph each; multi-edges, loops and predicates that split the graph are not explored.",
  ["graph_copy.py", "automaton_copy.py", "graph_extract.py", "cut.py"], [("graph_copy", "graph_copy.py"), ("automaton_copy", "automaton_copy.py"), ("graph_extract", "graph_extract.py"), ("cut", "cut.py")])
p("C14", "Union and intersection automata accept exactly the union and intersection",
  "For every two deterministic automata (complete or not, with or without an initial state), the union automaton accepts a word exactly when at least one of them accepts it, and the intersection automaton exactly when both do, the empty word included. "
  "The results are deterministic automata whose states stand for the pairs of states reached by a common word (as the visitor that builds the product tells), starting with the pair of initial states, and the operands are left unchanged.",
  INP, "every pair of finite deterministic automata and every word",
  "Two fixed operands per test, compared on a sample of words.",
  ["product_mixin.py", "deterministic_union.py", "deterministic_intersection.py", "parallel_breadth_first_search.py"],
  [("ProductMixin", "product_mixin.py"), ("deterministic_union", "deterministic_union.py"), ("deterministic_intersection", "deterministic_intersection.py")])
p("C15", "The inclusion test returns the true relation between two languages",
  "For every two deterministic automata, the inclusion test answers 0 exactly when they accept the same words, 1 exactly when the first language is strictly included in the second, -1 exactly when the second is strictly included in the first, and None exactly when neither is included in the other.",
  INP, "every pair of finite deterministic automata, complete or not", "Four fixed pairs are tested.",
  ["deterministic_inclusion.py", "parallel_breadth_first_search.py"], [("DeterministicInclusionVisitor.update", "deterministic_inclusion.py")])
p("C16", "Determinization preserves the language",
  "For every non-deterministic automaton, with empty-word transitions or not, the automaton returned by determinization is deterministic and accepts exactly the same words, whether a complete automaton was asked for or not. "
  "When asked for, the result is complete over the alphabet of the input; otherwise it has no transition that leads only to rejection because no run exists; distinct states stand for distinct reachable sets of original states and every state is reachable. "
  "The input automaton is left unchanged.",
  INP, "every finite Nfa, both modes, every word", "Three fixed automata are tested.",
  ["moore_determination.py", "nfa.py"], [("moore_determination", "moore_determination.py")])
p("C17", "A compiled regular expression accepts exactly the language it denotes",
  "For every expression built from literal characters, character classes (ranges, negation, escapes), concatenation, alternation, grouping and the quantifiers ?, *, +, {m}, {m,}, {,n}, {m,n} (also several in a row), the compiled non-deterministic automaton and the compiled deterministic automaton (complete or not) accept exactly the words that the expression denotes. "
  "Precedence is the usual one: a quantifier applies to the preceding atom or group with its quantifiers only, concatenation binds tighter than alternation. "
  "A negated class matches exactly the characters of the alphabet in use that the class does not list, and escaped operators stand for themselves. Texts outside the grammar are refused with an exception, never compiled: parentheses that do not match, an empty group or alternative, a quantifier with nothing to repeat, reversed bounds or intervals, an empty class, an unknown escape.",
  ["programs", "inputs"], "every regular expression of the supported grammar and every word",
  "About twenty fixed expressions are tested, on a few words each; quantifier corner cases interact with the structure of the sub-automaton.",
  ["thompson_compile_nfa.py", "regexp.py", "shunting_yard_postfix.py", "nfa.py", "moore_determination.py"],
  [("thompson_compile_nfa", "thompson_compile_nfa.py"), ("repetition_range", "thompson_compile_nfa.py"), ("catify", "shunting_yard_postfix.py")])
p("C18", "Hopcroft minimization yields the minimal equivalent automaton",
  "For every deterministic incidence automaton with an initial state, the minimized automaton accepts exactly the same words; its states are the blocks of the coarsest partition of the states of the input that agree on finality and move, for each symbol, to the same block or have both no transition. "
  "In particular, if the input is complete then no two states of the result are equivalent. "
  "The blocks that the first step returns are exactly that partition, without empty block, and the input is left unchanged.",
  INP, "every finite deterministic automaton, including those with no final or only final states", "Two fixed automata are tested.",
  ["hopcroft_minimize.py"], [("hopcroft_agglomerate_states", "hopcroft_minimize.py"), ("hopcroft_minimize", "hopcroft_minimize.py")])
p("C19", "Revuz minimization merges exactly the equivalent states of acyclic automata",
  "For every acyclic deterministic incidence automaton, edge-labelled or node-labelled, minimizing in place preserves the accepted words, keeps the initial state, merges only states with the same final flag, label and outgoing transitions, and leaves no two such states; the number of states left is the number of classes of the coarsest partition that respects final flags, labels and transitions. "
  "The height computed for a state is the length of the longest path from it to a state without outgoing transition, and the returned value is the largest height. "
  "The visitor is told of every change: each merge, each moved transition and each removed state, exactly once and in that order for each merge, and nothing else changes.",
  INP, "every finite acyclic deterministic automaton, in particular every set of words given as a tree", "Two fixed automata are tested.",
  ["revuz_minimize.py", "incidence_automaton.py", "incidence_node_automaton.py"], [("revuz_minimize", "revuz_minimize.py"), ("revuz_height", "revuz_minimize.py")])
p("C20", "Pruning keeps exactly the useful states and the language",
  "For every incidence automaton, pruning removes exactly the states that are not both reachable from the initial state and able to reach a final state, together with exactly their transitions. "
  "The accepted words and all transitions between kept states are unchanged, incoming and outgoing listings of the result agree, and the graph is not left reversed.",
  INP, "every finite automaton, including empty, all-final and no-final ones", "One fixed automaton is tested.",
  ["prune_incidence_automaton.py", "reverse.py", "depth_first_search.py"], [("prune_incidence_automaton", "prune_incidence_automaton.py"), ("find_reachable_vertices", "prune_incidence_automaton.py")])
p("C21", "A trie is exactly the set of inserted words, one node per prefix",
  "After any sequence of insertions of words, of other tries and of digital sequences, a trie accepts exactly the words inserted so far (including the empty word if and only if it was inserted), has exactly one node per distinct prefix, and an edge count of one less. "
  "Insertion is idempotent and its order does not matter, and merging one trie into another leaves the merged one unchanged. "
  "A digital sequence behaves as the immutable automaton that accepts exactly its word.",
  HIST, "every sequence of insertions (strings and tries) in every order", "A few fixed words are inserted.",
  ["trie.py", "digital_sequence.py", "automaton.py"], [("automaton_insert_string", "automaton.py"), ("TrieDeterministicFusion", "trie.py"), ("DigitalSequence", "digital_sequence.py")])
p("C22", "Suffix tries hold exactly the factors, and matching counts them exactly",
  "For every word, the suffix trie accepts exactly the factors of the word (of length at most the given bound, if any), with exactly one state per distinct factor; the listing of factors yields the empty word once and each occurrence of each non-empty factor (within the bound) exactly once. "
  "Matching two tries returns the exact numbers of nodes reached by the joint traversal that are final in neither, in only the first, in only the second, and in both, so that on two tries it counts the words that are only in the first, only in the second, and in both.",
  INP, "every word, length bound and pair of tries", "A few fixed words are tested.",
  ["suffix_trie.py", "trie_matching.py"], [("make_suffix_trie", "suffix_trie.py"), ("factors", "suffix_trie.py"), ("trie_matching", "trie_matching.py")])
p("C23", "A BK-tree returns a true nearest neighbour",
  "For every metric with integer distances, after any sequence of insertions every distinct element is stored exactly once, each stored element lies in the sub-tree labelled by its exact distance to every ancestor, and inserting an element again returns its existing node and changes nothing. "
  "Searching from the root or from any node with a maximum distance returns an element stored below that node at minimal distance, together with that distance, whenever that minimum is at most the maximum, and nothing otherwise (or when the tree is empty); without a maximum it returns a true nearest element.",
  HIST, "every metric, every sequence of insertions, every query and radius", "One fixed tree and a few queries are tested; the pruning bound only matters for particular distance patterns.",
  ["bk_tree.py", "levenshtein_distance.py"], [("BKTree.insert", "bk_tree.py"), ("BKTree.search", "bk_tree.py")])
p("C24", "Edit distances are the true minimal numbers of edit operations",
  "For every two words, the Levenshtein distance is the least number of insertions, deletions and substitutions that turn one into the other, the longest-common-subsequence distance the least number of insertions and deletions, and the Damerau-Levenshtein distance (optimal string alignment) the least number of insertions, deletions, substitutions and transpositions of adjacent characters where no part is edited twice. "
  "The memoized and the naive version of each distance agree. "
  "Each distance is symmetric and is zero exactly for equal words, and the first two satisfy the triangle inequality.",
  INP, "every pair of words over every alphabet", "A handful of fixed pairs is tested.",
  ["levenshtein_distance.py", "lcs_distance.py", "damerau_levenshtein_distance.py"],
  [("levenshtein_distance", "levenshtein_distance.py"), ("lcs_distance", "lcs_distance.py"), ("damerau_levenshtein_distance", "damerau_levenshtein_distance.py")])
p("C25", "Infix expressions are parsed and evaluated by precedence and associativity",
  "For every table of binary and unary operators and every well-formed infix expression over it, with parentheses, the shunting-yard algorithm yields the postfix form of the tree fixed by the operators' precedences and associativities: an operator keeps its last operand against the next operator exactly when it has a higher precedence, or an equal one and the next operator is left associative; parentheses override both. "
  "A unary operator is prefix where an operand has to start - it then applies to what follows and completes no pending operator - and otherwise postfix: it then applies at once. "
  "The syntax tree built on the fly is that tree, with operands in order, and its printed form is its full parenthesization; for algebraic expressions (signs, ^, *, /, +, -) the computed value is the value of that tree, whether the expression is given as a string or as tokens. "
  "Each operand and operator occurs exactly once in the output and no parenthesis does; the visitor sees each operator and opening parenthesis pushed and popped once, last in first out, and each output symbol once, in order. Parentheses that do not match are refused with an exception; the tree and the value also require one operand more than there are binary operators.",
  ["programs"], "every well-formed expression and every operator table", "A dozen fixed expressions is tested.",
  ["shunting_yard_postfix.py"], [("shunting_yard_postfix", "shunting_yard_postfix.py"), ("shunting_yard_ast", "shunting_yard_postfix.py"), ("shunting_yard_compute", "shunting_yard_postfix.py")])
p("C26", "Tokenization splits the input losslessly and in order",
  "For every string and every token pattern, the tokenizer reports consecutive non-empty matched and unmatched pieces, in order, with their true start and end positions, whose concatenation is the input; the matched pieces are exactly the non-empty leftmost matches of the pattern, and two unmatched pieces never follow each other unless the pattern can match nothing. "
  "Tokenizing an algebraic expression yields its numbers, operators and parentheses in order whatever the spacing, a + or - being a sign exactly when no operand precedes it, and refuses any other operator there. "
  "Tokenizing a regular expression yields its characters, escapes, classes, quantifiers and operators in order, with an explicit concatenation exactly between an operand's end and the next operand's start. "
  "Escaping a word yields a regular expression that denotes just that word.",
  INP, "every string over a pattern's alphabet", "A few fixed strings are tested.",
  ["tokenize.py", "shunting_yard_postfix.py"], [("tokenize", "tokenize.py"), ("tokenizer_alg", "shunting_yard_postfix.py"), ("tokenizer_re", "shunting_yard_postfix.py")])
p("C27", "Graphviz export and import preserve the graph",
  "Exporting any graph, automaton or view to the Graphviz language yields one well-formed document of the right kind that declares exactly its vertices and exactly its edges, or those asked for, one statement each and vertices first, with the right endpoints and arcs, the attributes asked for and, unless overridden, the shape that tells final states apart and the symbol as label of transitions (and of the states of a node automaton, ^ for the initial one), after the default styles in effect. "
  "Labels are written as HTML strings in which the supported tags are kept and every other special character is escaped, so that no label can end its string or its statement. "
  "Reading an exported graph back, directed or not, yields a graph of the same shape with the same vertex and edge attributes (attribute values other than labels hold no quote, backslash, ampersand or control character). "
  "A text written by hand, with integers for vertices and one statement closed by a semicolon per line, is read the same way: its visitor is called once per line, on a vertex, on an edge or on anything else, and every attribute is read, be it a bare word, quoted, single-quoted or an HTML string, whatever the spaces and separators. "
  "The JSON export of a styled graph is valid and lists the same vertices, edges and attributes. "
  "Rendering hands the text, layout engine and format to Graphviz and returns, writes or shows what it answers, or fails when it does; a picture or page that is saved from a notebook is written whole and shown with a link to it.",
  INP, "every finite graph and label, including quotes and special characters in labels", "A few fixed graphs are exported and only inspected superficially.",
  ["graphviz.py", "graphviz_impl.py", "graph_dp.py", "graph.py"], [("to_dot", "graphviz_impl.py"), ("read_graphviz", "graphviz.py")])
p("C28", "Combined visitors and property maps behave as their parts",
  "An aggregated visitor forwards every call and every event of a traversal, with its positional and keyword arguments, to each of its visitors in their order (nested ones included, up to the first that fails), so that each of them observes exactly the event sequence it would observe alone. "
  "Property maps read back what was last written for a key (the default if nothing was), functional, constant and identity maps return what they are defined to return, and read-only maps refuse to be written. "
  "Closed algebra operators return the absorbing element whenever one operand is absorbing and the plain operation otherwise.",
  BOTH, "every traversal history, every list of visitors, every sequence of reads and writes", "A few fixed reads and writes are tested.",
  ["aggregated_visitor.py", "property_map.py", "algebra.py"], [("AggregatedVisitor", "aggregated_visitor.py"), ("AssocPropertyMap", "property_map.py"), ("ClosedOperator", "algebra.py")])
p("C29", "Parallel traversal visits each reachable pair of states once",
  "For every two deterministic automata, the parallel traversal starts at the pair of initial states (or at the given pairs), discovers each other pair of states reachable by some common word exactly once, examines and finishes once each pair that was accepted for expansion, and on each examined pair examines exactly once each symbol that leads somewhere in at least one of the two automata. "
  "For each symbol it reports the two moves taken - bottom where a transition is missing, and no edge once an automaton is already in bottom - and then a tree edge when the target pair is new, else a gray or a black target according to whether the target pair is still pending or finished. "
  "Pairs are examined in non-decreasing order of the length of the shortest word that leads to them, and at each event the colour map shows new pairs white, pending ones gray and finished ones black.",
  INP, "every pair of finite deterministic automata, source pairs, push filter and symbol order", "It is only tested indirectly through the algorithms built on it.",
  ["parallel_breadth_first_search.py"], [("parallel_breadth_first_search", "parallel_breadth_first_search.py")])
p("C30", "Dijkstra's visitor observes every step of the search",
  "For every weighted graph and path algebra, a visitor of the shortest-path search sees each vertex initialized once before the search; then, in order of their final distances, each reachable vertex examined exactly once, all of its out-edges examined exactly once meanwhile, and the vertex finished after them. "
  "Each examined edge is reported exactly once, as relaxed when it strictly improves its target's distance and as not relaxed when it does not reach it; each reachable vertex but the source is discovered exactly once, by the first edge that gives it a distance, before it is examined. "
  "A search towards a target stops when the target is about to be expanded. At each event the colours tell unseen, queued and finished vertices apart (white, gray, black; but for the source before it is finished), the distance map holds the best distances so far and, once an edge is reported as relaxed, it is among the predecessors of its target; without a visitor the search computes the same.",
  INP, "every finite weighted graph, source, target and algebra", "No test looks at the events of the search.",
  ["dijkstra_shortest_paths.py"], [("DijkstraVisitor", "dijkstra_shortest_paths.py"), ("dijkstra_shortest_paths_iteration", "dijkstra_shortest_paths.py")])

p("C31", "Colour conversions are exact and undo each other",
  "For every colour, the conversion from HSL to HSV yields the value l + s min(l, 1 - l) and the saturation 2 (1 - l / v) (0 for black), the conversion from HSV to HSL the lightness v (1 - s / 2) and the saturation (v - l) / min(l, 1 - l) (0 for black and white), and neither touches the hue. "
  "Converting and converting back gives the same colour (but for the saturation of black and white). "
  "An HTML hsl() colour in degrees and percents, whatever its spacing, becomes the Graphviz triple of its HSV form, and any other colour is left as it is.",
  INP, "every colour in degrees and whole percents, every other colour name", "One colour is tested.",
  ["color.py"], [("hsl_to_hsv", "color.py"), ("hsv_to_hsl", "color.py"), ("html_color_to_graphviz", "color.py")])

p("C32", "Thompson's combinators denote what they are named for",
  "For every two fragments (automata with empty-word moves, one initial and one final state, whatever moves enter the former or leave the latter), a literal and a set of characters denote these characters, concatenation denotes the words of the first followed by words of the second, alternation the words of either, and zero-or-one, zero-or-more, one-or-more, exact and bounded repetitions the words made of that many words of the fragment. "
  "Each result is a fragment again (its announced initial and final states are the only ones), so that combinations nest to any depth, and neither the second operand nor any other fragment changes, then or when the result is combined further. "
  "Inserting an automaton into another adds a copy of each of its states (but of those already mapped) and of each of its transitions, empty-word moves as such, and changes nothing else.",
  INP, "every pair of finite fragments and every nesting of combinations", "Each combinator is tested on one or two literals only.",
  ["thompson_compile_nfa.py"], [("concatenation", "thompson_compile_nfa.py"), ("alternation", "thompson_compile_nfa.py"), ("repetition_range", "thompson_compile_nfa.py"), ("insert_automaton", "thompson_compile_nfa.py")])

p("C33", "Language operations compose, and automata stay apart",
  "For every chain of operations on a collection of automata - building words, tries, expressions and automata, determinizing, uniting, intersecting, minimizing, pruning, copying, inserting words, fusing tries, adding and removing transitions, changing final states - each result has exactly the language that its operation denotes for the languages of its operands at that moment, whatever operations made those. "
  "An operation changes no automaton but the one that it is asked to build or to change, neither then nor through any later change: operands and results share nothing. "
  "At any time, the inclusion test and the acceptance of words tell the truth about what the automata have become.",
  HIST, "every history of operations on automata that earlier ones produced", "Tests run one operation on a fresh automaton, and never change an operand or a result afterwards.",
  ["automaton.py", "moore_determination.py", "deterministic_union.py", "deterministic_intersection.py", "deterministic_inclusion.py", "hopcroft_minimize.py", "revuz_minimize.py", "prune_incidence_automaton.py", "automaton_copy.py", "trie.py", "nfa.py"],
  [("moore_determination", "moore_determination.py"), ("deterministic_union", "deterministic_union.py"), ("hopcroft_minimize", "hopcroft_minimize.py"), ("automaton_copy", "automaton_copy.py")])

p("C34", "Graphs stay apart and every algorithm sees them as they are now",
  "For every history of changes on a collection of graphs and of views on them - adding and removing vertices and edges, clearing, reversing, copying a part of one, viewing a part of another, combining views - each change shows in the graph that it is made on, at once in the views on that graph, and in nothing else: graphs, copies and views share nothing more. "
  "Whenever an algorithm is run in between - breadth-first and depth-first search, shortest paths, strong components, topological sort, extraction, cuts, listings and counts - its answer is the right one for what that graph or view shows at that moment, whatever was asked or done before, and asking changes nothing.",
  HIST, "every interleaving of changes and algorithm runs on directed, undirected and incidence graphs, copies of them and live views on them", "Tests build a graph, run one algorithm on it and never change the graph afterwards.",
  ["graph.py", "incidence_graph.py", "reverse.py", "graph_view.py", "graph_copy.py", "graph_extract.py", "breadth_first_search.py", "depth_first_search.py", "dijkstra_shortest_paths.py", "strong_components.py", "topological_sort.py"],
  [("Graph", "graph.py"), ("GraphView", "graph_view.py"), ("graph_copy", "graph_copy.py"), ("reverse_graph", "reverse.py"), ("dijkstra_shortest_paths", "dijkstra_shortest_paths.py")])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for d in P:
        assert len(d["title"]) <= 80, d["title"]
        f.write(json.dumps(d) + "\n")
print(len(P))
