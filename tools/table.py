H = "histories"; I = "inputs"; CF = "configurations"
DS = "library/datastructure/"
prop("C01", "Point-update range-fold segment trees answer like the plain sequence",
 "For every associative operation with identity (commutative or not), every size and every history of point updates, each one-dimensional, sparse (huge or default-initialised index space), two-dimensional, compressed and range-tree segment tree returns, for every range or rectangle, exactly the in-order product of the current elements in it, and reads back the last value written at each position. Boundary searches (max_right / min_left and their two-dimensional analogues) return the exact extremal index for every monotone predicate.",
 [H, I, CF], "all sizes, all monoids, all update histories, all query ranges, all monotone predicates",
 "No repository test drives these trees with a non-commutative operation over all ranges, and several members were never instantiated at all; the index arithmetic depends on n versus powers of two.",
 [DS + "segment_tree/segment_tree.hpp", DS + "segment_tree/commutative_segment_tree.hpp", DS + "segment_tree/sparse_segment_tree.hpp", DS + "segment_tree/segment_tree_2d.hpp", DS + "segment_tree/segment_tree_2d_sparse.hpp", DS + "segment_tree/compressed_segment_tree.hpp", DS + "range_tree/"],
 [("bottom-up folds of left and right parts", "SegmentTree::operator(), update_from"), ("coordinate compression", "CompressedSegmentTree, SegmentTree2DSparse")],
 ["return values of get/prod/max_right/min_left"])
prop("C02", "Range-apply segment trees act on exactly the addressed elements, in order",
 "For every monoid action and every history of range updates, point sets and queries, lazy, dual, compressed-dual, sparse-lazy, beats (chmin/chmax/add/sum), range-set/range-composite and sortable segment trees return exactly what applying each update element by element, in call order, would give, for every range. Structural operations of the sortable tree (sort ascending/descending on a range, insert, erase, split, concat) and its boundary searches obey the same rule.",
 [H, I, CF], "all sizes, all (non-commutative) actions, all operation histories",
 "Pending-operator bugs show only for particular nested or straddling ranges and non-commuting updates; the repository tests touch none of these headers except by sampling.",
 [DS + "segment_tree/lazy_segment_tree.hpp", DS + "segment_tree/dual_segment_tree.hpp", DS + "segment_tree/commutative_dual_segment_tree.hpp", DS + "segment_tree/sparse_lazy_segment_tree.hpp", DS + "segment_tree/segment_tree_beats.hpp", DS + "segment_tree/sortable_segment_tree.hpp", "library/range_query/range_chmin_chmax_add_range_sum.hpp", "library/range_query/range_set_range_composite.hpp"],
 [("lazy push before descent / update after", "LazySegmentTree::push/update"), ("treap-of-runs", "SortableSegmentTree")],
 ["return values of get/prod/all_prod/max_right/min_left"])
prop("C03", "Persistent arrays, segment trees and union-finds keep every old version intact",
 "For every tree of versions (each version derived from any earlier one by any update), every persistent structure - array, segment tree, lazy and dual segment trees, Fenwick tree, union-find - answers every query on every version, at any later time, exactly as a plain copy made when that version was created would. Creating or querying a version never changes another one, pools may be cleared between independent uses, and dumps and boundary searches agree with the plain copy.",
 [H, I, CF], "all version trees, all sizes, all (non-commutative) monoids and actions",
 "A leak between versions appears only when an old version is queried after a particular newer one was derived or queried; no repository test keeps more than one version.",
 [DS + "segment_tree/persistent_segment_tree.hpp", DS + "segment_tree/persistent_lazy_segment_tree.hpp", DS + "segment_tree/persistent_dual_segment_tree.hpp", DS + "persistent_array.hpp", DS + "segment_tree/persistent_commutative_dual_segment_tree.hpp", DS + "fenwick_tree/persistent_fenwick_tree.hpp", DS + "union_find/persistent_union_find.hpp"],
 [("path copying", "PersistentSegmentTree::set"), ("fresh nodes on push", "PersistentLazySegmentTree::push")], ["get/prod/fold results of all versions after every operation"])
prop("C04", "Fenwick trees return exact prefix, range and rectangle sums",
 "For every history of additions, all Fenwick trees (plain, prefix-only, range-add, 2D, 2D dense and sparse, map-based, rectangle add/sum variants) return for every prefix, range or rectangle exactly the group sum of what was added, and their searches (max_right, min_left, lower bound style) return the exact extremal index. The Fenwick-based integer set returns exact membership, rank, kth, nearest-element and boundary results for every set, including empty and full ones.",
 [H, I, CF], "all sizes, all update histories, all query ranges, all groups",
 "Bit tricks on the index make errors depend on the exact position against powers of two; no repository test covers the family.",
 [DS + "fenwick_tree/", DS + "util/", "library/range_query/"], [("lowest-set-bit walks", "FenwickTree::apply / prefix sums"), ("offline coordinate compression", "FenwickTree2DSparse")], ["query return values"])
prop("C06", "Red-black tree sequences behave as plain sequences, in every version",
 "For every history of insert, erase, split, merge, point set, range apply, range reverse and range product, the red-black trees (plain, with products, lazy, reversible, and their persistent forms) hold exactly the sequence a plain array would hold and return its in-order products; sorted-order operations insert and find at the exact bound. Persistent forms keep every earlier version's contents. Garbage-collecting rebuilds keep the contents.",
 [H, I, CF], "all operation histories and all version trees",
 "Rebalancing case splits depend on the black heights of both merge operands, which short sampled tests do not reach; version isolation needs old versions to be re-read.",
 [DS + "bbst/red_black_tree.hpp", DS + "bbst/red_black_reversible_lazy_segment_tree.hpp", DS + "bbst/persistent_red_black_tree.hpp", DS + "bbst/persistent_red_black_segment_tree.hpp", DS + "bbst/persistent_red_black_lazy_segment_tree.hpp", DS + "bbst/persistent_red_black_reversible_lazy_segment_tree.hpp", DS + "bbst/red_black_tree_base.hpp", DS + "bbst/red_black_segment_tree.hpp", DS + "bbst/red_black_lazy_segment_tree.hpp", DS + "bbst/reversible_red_black_tree_base.hpp", DS + "bbst/persistent_red_black_tree_base.hpp"],
 [("rank-balanced merge", "RedBlackTreeBase::merge_sub"), ("copy on push", "PersistentRedBlackTreeBase")], ["dump / prod / get of all live trees after every operation"])
prop("C05", "Treap sequences behave as plain sequences for every history and priority draw",
 "For every history of insert, erase, set, split, merge, rotate, reverse, range apply and range product, and for every outcome of the internal random priorities, the implicit treaps (plain, with products, reversible, dual, lazy) hold exactly the sequence a plain array would hold and return its in-order products. Iterators in both directions reach the addressed element for every jump. Boundary searches and sorted-order operations (insert/erase/split at lower or upper bound, erase if present) act at the exact position, ties included, and trees sharing the node pool never affect each other.",
 [H, I, CF], "all operation histories, all priority assignments, all non-commutative products and actions",
 "A missing push or a stale product is visible only when a reversed subtree is merged back in a particular tree shape, which depends on random priorities; the repository has no self-checking test of these classes.",
 [DS + "bbst/implicit_treap_base.hpp", DS + "bbst/implicit_treap.hpp", DS + "bbst/implicit_treap_segtree.hpp", DS + "bbst/reversible_implicit_treap_base.hpp", DS + "bbst/reversible_implicit_treap.hpp", DS + "bbst/reversible_implicit_treap_segtree.hpp", DS + "bbst/reversible_implicit_treap_dual_segtree.hpp", DS + "bbst/reversible_implicit_treap_lazy_segtree.hpp"],
 [("priority-driven split/merge", "Node::split, Node::merge"), ("lazy reversal and operators", "ReversibleNode::push")], ["contents, products, iterators after every operation"])
prop("C07", "Splay-based sequences, maps and sets behave as plain sequences, maps and sets",
 "For every history of insert, erase, set, split, concat, reverse, range apply and range product, and whatever the order of earlier reads (reads restructure the tree), the splay sequences hold exactly the sequence a plain array would hold, with in-order products. The splay maps and set hold exactly the entries of an ordered map; kth entry, default lookup, get-or-create, key or index splits, products and operator application by key or by index range address exactly the entries an ordered map would.",
 [H, I, CF], "all operation histories including interleaved reads, all key sets, all non-commutative products and actions (reversal: commutative products)",
 "The tree shape is a function of the whole access history, so lost pushes or size updates need specific read/write interleavings; half the public members had never been instantiated.",
 [DS + "dynamic_sequence.hpp", DS + "range_foldable_dynamic_sequence.hpp", DS + "lazy_eval_dynamic_sequence.hpp", DS + "splay_tree_map.hpp", DS + "splay_tree_set.hpp", DS + "range_foldable_map.hpp", DS + "lazy_eval_map.hpp"],
 [("top-down splaying with zig-zig rotation", "DynamicSequenceNodeBase::splay, MapNodeBase::splay_by_key"), ("lazy push", "LazyEvalMapNodeBase::push")], ["all reads after each history"])
prop("C08", "Union-finds maintain exact components, weights, sums and merge history",
 "For every sequence of merges (repeats included) and every interleaving of queries, all union-finds report exactly the partition generated by the merges: same, size, groups, component listing and merge's return value. The weighted one returns the exact (non-commutative) difference between any two connected items; component sums and lazily applied operators equal element-wise application; undo, snapshot and rollback restore the exact earlier partition and sums; the merge-history forest reports the partition at every past time.",
 [H, I, CF], "all merge/undo/apply histories, all sizes, all groups and sums",
 "Path compression and union by size make errors depend on tree shape and query order; no repository test examines intermediate states.",
 [DS + "union_find/"], [("path compression with potentials", "WeightedUnionFind::root/weight"), ("history stack", "UndoUnionFind::undo"), ("simultaneous merge", "MergeHistoryForest::merge_simultaneously")], ["all queries after each history"])
prop("C09", "Heaps, SWAGs, sparse tables, RMQ, Cartesian trees and slope trick are exact",
 "For every history of pushes and pops, binary, interval and double-ended heaps return the exact minimum / maximum under the given comparator and lose no item (also after copying); queue and deque aggregation return the in-order product and contents of the live elements, with consistent iterators. Sparse tables and +-1 RMQ return the exact range product for every range (empty input included), Cartesian trees are valid heap-ordered trees of their sequence with exact ranges, sliding windows give the exact arg-min/max under each tie rule, and SlopeTrick tracks min, argmin range and breakpoints of the exact convex function.",
 [H, I], "all operation histories, all arrays, all ranges, all comparators",
 "Errors hide in particular heap shapes, window schedules or stack splits (odd/even redistribution), in empty and single-element states; no repository test checks any of them.",
 [DS + "heap/", DS + "double_ended_priority_queue.hpp", DS + "priority_queue.hpp", DS + "deque_aggregation.hpp", DS + "queue_aggregation.hpp", DS + "sliding_window_minimum.hpp", DS + "sparse_table.hpp", DS + "cartesian_tree.hpp", DS + "slope_trick.hpp", "library/algorithm/rmq_pm1.hpp", "library/algorithm/rmq_pm1_with_index.hpp"],
 [("interval-heap fix-up", "IntervalHeap::fix_max_heap_down"), ("stack redistribution", "DequeAggregation::pop_front")], ["all query results after every operation"])
prop("C10", "Bitsets, rank/select bit vectors and wavelet matrices are exact at every length",
 "For every length (in particular around multiples of the word and block size) and every content, DynamicBitSet and static_bitset behave as a plain bit array under set/reset/flip, ranges, shifts, complement, boolean operators, comparison, counting, searching, resizing and push/pop, whatever the history left beyond the last bit. BitVector rank/select, and all queries of WaveletMatrix and CompressedWaveletMatrix (access, rank, k-th, frequency, nearest values, and the xor variants, which return the original element v ordered by x^v), equal a scan of the range for every range, bound and mask.",
 [H, I, CF], "all lengths, contents, ranges, thresholds, masks and value types up to full width",
 "Mask arithmetic fails only at block borders or with dirty tail bits; repository tests sample random lengths and never touch the compressed matrix, static_bitset or bit references.",
 [DS + "util/dynamic_bitset.hpp", DS + "util/static_bitset.hpp", DS + "bit_vector.hpp", DS + "wavelet_matrix.hpp", DS + "compressed_wavelet_matrix.hpp"],
 [("block masks", "mask_range_bits / range_update"), ("two-level rank", "BitVector::build/rank"), ("per-bit stable partition", "WaveletMatrix::build/succ")], ["all observers"])
prop("C11", "Line containers, monotone minima, alien DP and dynamic hulls return exact optima",
 "For every sequence of lines (duplicates, parallel and useless lines included) and every query point, ConvexHullTrick, MonotonicCHT (any end of the slope range, monotone or arbitrary query order) and LiChaoSegmentTree (lines and closed segments; nothing where no segment covers) return the exact minimum or maximum, for integral and floating types. monotone_minima returns the leftmost arg-min of every row-monotone matrix, alien_convex/alien_concave evaluate every convex/concave function exactly at every point, and DynamicConvexHullOffline keeps the exact hulls and linear extrema under insertion and deletion.",
 [H, I], "all line/segment/point sequences, all query schedules, all matrices and convex functions within bounds",
 "Errors appear for ties, parallel lines or particular insertion orders that sampled judges miss; the floating-point instantiations were never exercised.",
 [DS + "convex_hull_trick.hpp", DS + "monotonic_convex_hull_trick.hpp", DS + "segment_tree/li_chao_segment_tree.hpp", "library/algorithm/monotone_minima.hpp", "library/algorithm/dynamic_convex_hull_offline.hpp", "library/optimization/alien_dp.hpp"],
 [("hull pruning", "add_line / is_necessary"), ("bridge search", "DynamicConvexHullOffline::merge")], ["query results, hull contents"])
prop("C12", "Tries, range sets, priority sums, ZDDs and permutation trees are exact",
 "For every history of insert/erase (with multiplicities), BinaryTrie and BinaryTriePatricia answer counts, prefix counts, k-th smallest/largest of {x^v}, counts and nearest values of x^v around any bound exactly, for every xor mask and every bit width up to the full type. RangeSet holds exactly the union of inserted minus erased ranges (size, ranges, membership, mex, returned counts), also at the extremes of the type. PrioritySum returns the sum of the first k elements in priority order (MaximumPrioritySum: the k smallest, MinimumPrioritySum: the k largest) under every insert/erase/set_k history. ZDD operations equal the set-family operations they name on canonical diagrams. PermutationTree lists exactly the strong intervals of every permutation.",
 [H, I, CF], "all histories, masks, bounds, widths; all set families and permutations within bounds",
 "Most members (kth/count/nearest by xor, max_len_item, erase of PrioritySum, in_the_same_range) are never executed by the tests; errors depend on particular multisets, bit patterns or lazily deleted state.",
 [DS + "binary_trie.hpp", DS + "binary_trie_patricia.hpp", DS + "util/range_set.hpp", DS + "util/priority_sum.hpp", DS + "ZDD.hpp", DS + "permutation_tree.hpp"],
 [("path-compressed 4-ary trie", "BinaryTriePatricia::_insert/_erase/xor_count_lt"), ("two-heap lazy deletion", "PrioritySum::fix"), ("memoised ZDD recursion", "ZDD::restrict/permit")], ["every observer after every step"])
prop("C13", "Graph container, traversals and shortest paths are exact",
 "For every graph, the CSR Graph keeps exactly the given arcs in order under every constructor, edit of an adjacency list, reversal, shrinking, copy, move and relocation; dfs_tree returns a DFS forest in which every undirected edge appears exactly once; cycle detection returns a genuine cycle iff one exists. dijkstra (distances and explicit paths), BFS and complement BFS (all source sets, components), 0-1 BFS, min-max Floyd-Warshall, DAG shortest paths (negative weights included), topological sort, bipartite colouring, multi-edge removal and the segment-tree graph (every range reaches exactly its elements) return exact answers.",
 [I, H], "all graphs (multi-edges, self-loops, disconnected), all sources and weights, all edit histories",
 "Wrong relaxations, lost arcs or dangling internal pointers show only for particular small topologies or after a graph object has been moved; tests run none of these exhaustively.",
 ["library/graph/csr_graph.hpp", "library/graph/dijkstra.hpp", "library/graph/bfs.hpp", "library/graph/bfs01.hpp", "library/graph/bfs_complement.hpp", "library/graph/minmax_floyd_warshall.hpp", "library/graph/single_source_shortest_path_dag.hpp", "library/graph/topological_sort.hpp", "library/graph/cycle_detection.hpp", "library/graph/segment_tree_graph.hpp", "library/graph/remove_multiedges.hpp", "library/graph/bipartite_graph_recognition.hpp"],
 [("shared edge array with back pointers", "Graph::AdjacentList"), ("label-setting loop", "dijkstra::dijkstra"), ("bit-parallel transitive closure", "minmax_floyd_warshall")], ["distances, paths, orders, adjacency, cycles"])
prop("C14", "Bridges, articulation points, blocks, block-cut forests and SCCs are exact",
 "For every undirected multigraph, LowLink reports exactly the bridges and articulation points and the component count of the graph with any vertex or edge removed; TwoEdgeConnectedComponents labels two vertices alike iff no bridge separates them and its reduced forest has exactly the bridges; for every loop-free graph BiconnectedComponents puts two edges together iff they lie on a common simple cycle, lists isolated vertices, and BlockCutForest links each block to exactly its articulation points. All of it also after adding edges and building again. scc_tournament returns the strongly connected components of every tournament in topological order.",
 [I, H], "all multigraphs, all edge orders, all build histories within bounds",
 "Parallel edges, isolated vertices, root vertices of the DFS and repeated builds are exactly the cases a sampled judge input does not single out; the repository has no test of these headers.",
 ["library/graph/low_link.hpp", "library/graph/two_edge_connected_components.hpp", "library/graph/biconnected_components.hpp", "library/graph/block_cut_forest.hpp", "library/graph/scc_tournament.hpp"],
 [("low-link recursion", "LowLink::build"), ("vertex stack of blocks", "BiconnectedComponents::build")], ["bridges, articulation points, labels, groups, forests"])
prop("C15", "Matchings, flows, assignment, edge colouring and project selection are optimal",
 "For every bipartite multigraph, BipartiteMatching returns a maximum matching, minimum edge and vertex covers and a maximum independent set (also when edges are added between solves), dulmage_mendelsohn_decomposition returns the unique finest block-triangular decomposition, and EdgeColoringOfBipartiteGraph a proper colouring with max-degree colours. For every matrix assignment_problem returns an optimal permutation. For every network without negative cycle, MinCostFlow (all three initialisers, any Cap/Cost types) returns the exact convex cost curve, the optimal limited, maximum and arbitrary flows, and edge flows attaining them, also when continued by a second call. ProjectSelection / KProjectSelection return the exact optimum and an assignment attaining it for every combination of submodular / Monge terms.",
 [I, H], "all graphs, networks, matrices and term sequences within bounds",
 "An augmenting step that is wrong only for particular residual graphs, a stale counter after a second solve, or a mis-signed term shows only on specific small instances; the repository never checks optimality.",
 ["library/graph/bipartite_matching.hpp", "library/graph/dulmage_mendelsohn_decomposition.hpp", "library/graph/edge_coloring_of_bipartite_graph.hpp", "library/graph/assignment_problem.hpp", "library/graph/min_cost_flow.hpp", "library/optimization/project_selection_problem.hpp", "library/optimization/k_project_selection_problem.hpp"],
 [("Hopcroft-Karp phase", "BipartiteMatching::solve"), ("potentials", "MinCostFlow::update_potential"), ("term decomposition", "ProjectSelection::add_cost")], ["optimal values, witnesses, slopes, edge flows"])
prop("C16", "Exact exponential graph algorithms and treewidth-2 decompositions are exact",
 "For every simple graph, maximum_independent_set, minimum_vertex_cover and maximum_clique return valid sets of optimal size, chromatic_number the exact chromatic number, and enumerate_cliques / enumerate_triangles report every non-empty clique / triangle exactly once. For every multigraph TreeDecompositionTW2 returns a decomposition iff the treewidth is at most 2, and then a valid tree decomposition with bags of at most 3 distinct vertices and a valid nice decomposition; NiceDecompTree classifies nodes correctly and run_dp folds every node exactly once in post-order with the right introduced / forgotten vertex.",
 [I], "all graphs within bounds, all vertex labelings",
 "Branching rules, odd-cycle handling and contraction bookkeeping are wrong only for specific small graphs (complete graphs, odd cycles, graphs with parallel edges); no repository test covers them.",
 ["library/graph/maximum_independent_set.hpp", "library/graph/minimum_vertex_cover.hpp", "library/graph/maximum_clique.hpp", "library/graph/chromatic_number.hpp", "library/graph/enumerate_cliques.hpp", "library/graph/enumerate_triangles.hpp", "library/graph/tree_decomposition_tw2.hpp", "library/graph/tree_decomposition_tw2_dp.hpp"],
 [("branch on maximum degree", "maximum_independent_set"), ("degree-2 contraction", "TreeDecompositionTW2::decomp/remove_edge"), ("binarisation", "TreeDecompositionTW2::nice_decomp")], ["returned sets, counts, bags, dp results"])
prop("C17", "Spanning trees, Eulerian walks, functional graphs, Manhattan proximity are exact",
 "For every weighted multigraph, the Kruskal classes return a minimum (maximum) spanning forest with its weight, sorted edges and the connectivity verdict, also when built again after more edges. For every point set (duplicates included, integral or floating coordinates) manhattan_mst returns a minimum spanning tree of the complete Manhattan graph and manhattan_minimum_distances the exact nearest distance of every point. DirectedEulerianGraph / UndirectedEulerianGraph return a walk using every edge exactly once iff one exists (from the requested start; with distinct endpoints if requested) and leave the graph unchanged. FunctionalGraph answers k-th iterates, ordered path products, maximal steps under a monotone predicate, and tail/cycle structure exactly for every map and every step count up to 2^63-1.",
 [I, H], "all graphs, maps, point sets and step counts within bounds",
 "Leftover auxiliary edges, duplicate points and extreme step counts are invisible to sampled judge data; the repository tests none of these headers.",
 ["library/graph/kruscal.hpp", "library/graph/manhattan_mst.hpp", "library/graph/manhattan_minimum_distances.hpp", "library/graph/functional_graph.hpp", "library/graph/directed_eulerian_graph.hpp", "library/graph/undirected_eulerian_graph.hpp"],
 [("octant sweep", "manhattan_mst/make_edges"), ("Hierholzer recursion", "eulerian_circuit"), ("binary lifting", "FunctionalGraph::Doubling")], ["forests, distances, walks, iterates"])
prop("C18", "HLD, LCA, level ancestors, Euler tours, virtual trees, centroids are exact",
 "For every tree, root and adjacency order (HLD: every forest), HeavyLightDecomposition returns exact lca, ancestors, jumps, distances, sizes, contiguous subtree intervals, a true heavy child per inner vertex, and path folds/updates that visit exactly the path's vertices (or edges) in path order; LowestCommonAncestor, LevelAncestor, EulerTour and get_tree_path agree with walking parent links for all pairs and all k (out-of-range k included). AuxiliaryTree::build yields exactly the lca-closure of any vertex set with compressed edges, with no residue from earlier builds. find_centroids lists all centroids, and the centroid decomposition has correct parents, depths and sizes, halves every component, and collect reports exact distances / ordered edge products per branch.",
 [I, H], "all trees, roots, adjacency orders, vertex pairs and subsets within bounds",
 "Errors tied to a swapped heavy child, an off-by-one at a path top, or stale adjacency in a reused virtual tree appear only for particular shapes and query orders; there is no repository test of them.",
 ["library/tree/heavy_light_decomposition.hpp", "library/tree/lowest_common_ancestor.hpp", "library/tree/level_ancestor.hpp", "library/tree/euler_tour.hpp", "library/tree/auxiliary_tree.hpp", "library/tree/centroid_decomposition.hpp", "library/tree/find_centroid.hpp", "library/tree/get_path.hpp"],
 [("heavy path walk", "HeavyLightDecomposition::fold_path_noncommutative"), ("stack construction", "AuxiliaryTree::build"), ("iterative centroid search", "CentroidDecomposition::build")], ["all query results"])
prop("C19", "Link-cut trees answer exactly under every link/cut/evert/update history",
 "For every forest and every sequence of link, cut, evert, set, apply and query operations (any mixture, on any vertices), LinkCutTree, LinkCutTreePathFoldable (non-commutative values) and LinkCutTreePathFoldableLazy behave like a plain rooted forest: is_connected / lca / path_from_root / path queries are exact for the current root, get and path products are exact, products come in path order from u to v, lazily applied actions reach exactly the vertices of the path, cutting and linking never changes a value outside the operation, and node storage is recycled without corruption.",
 [H, I], "all operation histories within bounds, all forests",
 "A missing push or a missing reverse flag only matters for particular sequences of accesses; path-order errors need a non-commutative value and a re-rooted tree. No repository test runs these structures.",
 ["library/tree/link_cut_tree.hpp", "library/tree/link_cut_tree_base.hpp", "library/tree/link_cut_tree_path_foldable.hpp", "library/tree/link_cut_tree_path_foldable_lazy.hpp", "library/util/object_pool.hpp"],
 [("preferred path switch", "LinkCutTreeBase::expose"), ("reversal flag", "LinkCutTreeBase::push / reverse_all"), ("lazy propagation", "LinkCutTreePathFoldableLazy::push")], ["all query results after each operation"])
prop("C20", "Rerooting, contour sums, static top trees and tree isomorphism are exact",
 "For every tree (any start vertex of the internal decomposition, any edge order): Rerooting / RerootingInvertible return for every root the value of the dp of the tree rooted there, in all four weight modes; the contour structures (ContourSumOnTree, RangeContourSumOnTree, PointAdd..., PointSet..., PointGetRangeContour...) count every vertex at a distance in [dl,dr) exactly once, for all bounds including negative and too large, before and after any updates, using only the supplied monoid; static_toptree's tree_dp equals the recursive dp and stays so after updating any vertex, with every callback given adjacent clusters and the right vertices; RootedTreeClassifier gives two rooted subtrees the same id iff they are isomorphic and is_isomorphic is exact with corresponding roots; frequency_table_of_tree_distance counts pairs exactly, also when counts exceed one NTT modulus.",
 [I, H], "all trees, roots, start vertices, bounds within limits",
 "A distance off by one on one side of an artificial split node, a wrong excluded child or a wrong centroid comparison is only visible on particular shapes; the repository has no tests of these.",
 ["library/tree/rerooting.hpp", "library/tree/rerooting_invertible.hpp", "library/tree/contour_sum.hpp", "library/tree/range_contour_sum_invertible.hpp", "library/tree/point_add_range_contour_sum.hpp", "library/tree/point_add_range_contour_sum_invertible.hpp", "library/tree/point_set_range_contour_sum.hpp", "library/tree/point_get_range_contour_operate.hpp", "library/tree/point_get_range_contour_add_invertible.hpp", "library/tree/static_top_tree.hpp", "library/tree/tree_isomorphism_classification.hpp", "library/tree/frequency_table_of_tree_distance.hpp"],
 [("prefix/suffix products", "Rerooting::run_dp"), ("1/3-centroid decomposition with merged children", "build"), ("heavy path merging", "static_toptree::_merge_paths"), ("centroid comparison", "RootedTreeClassifier::is_isomorphic")], ["dp values, contour sums, ids, tables"])
prop("C21", "String structures agree with direct search for every string",
 "For every string (over any alphabet, as std::string or vector): Aho-Corasick automata count exactly the patterns that are suffixes of the text read so far, also after patterns are added and build is repeated; tries contain exactly the added prefixes; Morris-Pratt failure functions, periods and matches, Manacher radii, and the enumerated runs are exact; SuffixAutomaton answers membership, counts, occurrences, first occurrence and longest common substring exactly at every length; SubstringSet is the sorted set of all substrings for indexing, ranking, bounds and iteration, also after build is called again; palindromic trees hold exactly the distinct palindromes with correct links, parents, first occurrences and frequencies, also after clear; rolling hashes (static, field, dynamic) are equal for equal substrings, follow the polynomial of the chosen bases, distinguish unequal short strings, and concat / edits keep that; CompareSubstring orders all substring pairs correctly.",
 [I, H], "all strings, patterns and edit histories within bounds",
 "Automaton and tree links are wrong only for particular periodicities; reuse of an object (second build, clear, new bases) is untested in the repository, which only runs single judge inputs.",
 ["library/string/aho_corasick.hpp", "library/string/aho_corasick_array.hpp", "library/string/trie_map.hpp", "library/string/trie_array.hpp", "library/string/morris_pratt.hpp", "library/string/manacher.hpp", "library/string/run_enumerate.hpp", "library/string/rolling_hash.hpp", "library/string/rolling_hash_field.hpp", "library/string/dynamic_rolling_hash.hpp", "library/string/compare_substring.hpp", "library/string/suffix_automaton.hpp", "library/string/substring_set.hpp", "library/string/palindromic_tree.hpp"],
 [("failure links", "AhoCorasick::build"), ("clone split", "SuffixAutomatonBase::append"), ("divide and conquer runs", "run_enumerate"), ("suffix links", "PalindromicTreeBase::add")], ["all query results"])
prop("C22", "Primality, sieves, factorization, roots and totients are exact",
 "For every integer in the range of its type: the deterministic primality tests answer correctly up to 2^64-1; every sieve (runtime, linear, compile-time, any size N including the smallest) classifies every n in [0,N], returns prime factors, factorizations and divisor sets exactly and may be constructed repeatedly; fast_factorize and trial-division factorize return exactly the primes and exponents of n, whatever the random seed, also next to the type limit; totient, Carmichael, Mobius values, tables and prefix sums (for every quotient n/d), square-free counts, floor/ceil k-th roots are exact; factorial_number is arithmetic modulo n! and a bijection with permutations in lexicographic order.",
 [I], "all n in exhaustive ranges plus windows around every threshold, type limit and prime-product structure",
 "Wheel tables, base-selection thresholds, overflow near type limits and rounding of floating-point roots fail only at isolated inputs; the repository checks a few judge inputs.",
 ["library/number/deterministic_miller_rabin.hpp", "library/number/deterministic_miller_rabin_simd.hpp", "library/number/montogomery.hpp", "library/number/fast_factorize.hpp", "library/number/sieve_of_eratosthenes.hpp", "library/number/sieve_of_eratosthenes_constexpr.hpp", "library/number/internal_eratosthenes.hpp", "library/number/linear_sieve.hpp", "library/number/mobius_function.hpp", "library/number/sum_of_totient_function.hpp", "library/number/sum_of_mobius_function.hpp", "library/number/count_square_free.hpp", "library/number/util.hpp", "library/number/kth_root_round.hpp", "library/number/factorial_number.hpp", "library/number/factorized_form.hpp"],
 [("wheel sieve", "Sieve / SimpleSieve constructors"), ("base selection", "miller_rabin::is_prime"), ("Brent cycle search", "fast_factorize::internal::pollard_rho")], ["returned primes, factors, divisors and sums"])
prop("C23", "Modular arithmetic, orders, roots and discrete logarithms are exact",
 "For every modulus in the supported range (1 to 2^31-1 for modints, odd words for Montgomery, 1 to 2^32-1 for Barrett, 2^61-1) and every operand of any integer type: construction, + - * / ++ -- pow xpow inv comparison and I/O agree with integer arithmetic modulo m and results are reduced; quotient and remainder by Barrett are exact for all 64-bit x. ext_gcd/gcd_inv/inv_mod satisfy Bezout; garner solves every pairwise coprime system; modular square roots exist exactly when the argument is a square (prime, prime power, composite, negative arguments) and square back; OrderMod gives exact orders, totients, Carmichael values, and recognises and returns exactly primitive roots; discrete logarithms (baby-step and index calculus) return the least exponent or -1 for every base, value and modulus; tetration_mod equals the power tower modulo m.",
 [I, H], "all small moduli with all operands; boundary operands of large moduli",
 "Overflow, non-coprime arguments, prime powers and moduli above 2^30 or 2^31 each fail only for particular pairs; judge inputs use a few large primes.",
 ["library/number/modint.hpp", "library/number/modint_2^61m1.hpp", "library/number/montogomery.hpp", "library/number/barrett_reduction.hpp", "library/number/ext_gcd.hpp", "library/number/garner.hpp", "library/number/mod_sqrt.hpp", "library/number/order_Z_mZ.hpp", "library/number/primitive_root.hpp", "library/number/discrete_logarithm.hpp", "library/number/fast_discrete_logarithm.hpp", "library/number/tetration_mod.hpp"],
 [("conditional subtraction", "static_modint / dynamic_modint operators"), ("preperiod handling", "discrete_logarithm, tetration_mod"), ("lifting", "prime_power_mod_sqrt"), ("factor-wise order", "OrderMod::_order_impl")], ["returned residues, exponents and existence answers"])
prop("C24", "Rationals, Stern-Brocot nodes, Bezout and quotient enumeration are exact",
 "Rational values are always in lowest terms with positive denominator; arithmetic, floor, ceil, conversions and all comparisons are exact, comparisons even where cross products overflow; approximate returns the best lower and upper fractions within the limits; Stern-Brocot nodes keep value, path, depth and range consistent under every move, and lca, distance, ancestry, the three orders and auxiliary trees are exact. BezoutEquation reports solvability, number and extremal solutions of ax+by=z under any restriction of x and y, including zero coefficients. Quotient enumeration yields each distinct floor(n/x) once, in order, with exact ranges; the denominator queries return exactly the range of x with the given floor or ceiling; min_of_mod_of_linear is the true minimum.",
 [I, H], "all operands and move sequences within bounds, plus type-limit operands",
 "Sign combinations, zero coefficients, overflow near type limits and the alternating direction of continued fractions only show on particular operands.",
 ["library/number/rational.hpp", "library/number/stern_brocot_tree.hpp", "library/number/bezout_equation.hpp", "library/number/enumerate_quotient.hpp", "library/number/find_denominators.hpp", "library/number/min_of_mod_of_linear.hpp"],
 [("continued-fraction comparison", "Rational::compare"), ("run-length path", "sbt_node::move_down / move_up"), ("range intersection", "BezoutEquationSolution::set_*")], ["values, orders, ranges and counts"])
prop("C25", "Big integers are exact for every operand size, sign and construction",
 "unsigned_bigint and bigint values are canonical integers: construction from every integral type (both limits), from braces and from decimal strings (leading zeros, '-0') denotes the same number, prints without leading zeros, compares and converts back exactly; + - * / % ++ -- and limb shifts are exact for operands of any length, across the schoolbook, Karatsuba, FFT and Newton-division switches, including zero operands, powers of the base, exact quotients, remainders 0 and b-1, and aliasing (x += x, x -= x, x /= x); signed division truncates toward zero and a = q b + r holds with the sign of a.",
 [I, H], "all limb patterns at all algorithm-switch lengths; all small operands over extreme limbs",
 "Carries, normalization and the algorithm switches only fail for particular digit patterns (0 * 0, division by powers of the base, leading zeros); judge inputs are random digits.",
 ["library/math/unsigned_bigint.hpp", "library/math/bigint.hpp", "library/convolution/arbitrary_mod_convolution.hpp", "library/convolution/convolution_naive.hpp"],
 [("schoolbook division", "unsigned_bigint::_divmod_naive"), ("Newton inverse", "unsigned_bigint::_div_powD"), ("Karatsuba signs", "unsigned_bigint::_mul_karatsuba")], ["decimal strings, comparison results, quotient and remainder"])
prop("C26", "Convolutions and transforms equal their defining sums for every input size",
 "For every length (including 0, 1, and both sides of each algorithm switch) and every input: and/or/xor/subset/gcd/lcm/Dirichlet/(min,+)/multiplicative-mod-2^n/multivariate (truncated and circular) convolutions, convolution under an arbitrary modulus, modulo 2^64, exact over int, and beyond the NTT length of the modulus equal the defining double sum; zeta and Mobius transforms over subsets, supersets, divisors, multiples and Kronecker products are exact, mutually inverse and use only the supplied operations; chirp-z returns f(a r^k) for all a and r; polynomial_eval applies the polynomial in the convolution algebra; relaxed and semi-relaxed convolutions return the exact coefficient after every append.",
 [I, H], "every pair of basis vectors per size (complete by bilinearity) plus extreme dense inputs; every append",
 "Block boundaries of online algorithms, CRT overflow with extreme values and short-input special paths fail only at particular sizes; the judge tests use random data of one large size.",
 ["library/convolution/" + x + ".hpp" for x in ["and_convolution", "or_convolution", "xor_convolution", "subset_convolution", "array_subset_convolution", "gcd_convolution", "lcm_convolution", "dirichlet_convolution", "min_plus_convolution", "multi_variate_convolution", "multi_variate_convolution_circular", "multiplicative_convolution_mod_2^n", "arbitrary_mod_convolution", "convolution_2_64", "convolution_large", "convolution_naive", "relaxed_convolution", "relaxed_convolution_ntt", "semi_relaxed_convolution", "semi_relaxed_convolution_ntt", "polynomial_eval"]] + ["library/transform/" + x + ".hpp" for x in ["subset", "supset", "divisor", "multiple", "walsh_hadamard", "kronecker", "kronecker_power", "chirp_z_transform"]],
 [("online block decomposition", "RelaxedConvolutionNTT::append"), ("CRT reconstruction", "convolution_2_64, arbitrary_mod_convolution"), ("discrete-log reindexing", "multiplicative_convolution_mod_2_n")], ["all coefficients"])
prop("C27", "Power series and polynomial algorithms satisfy their defining identities",
 "For every input, length (0, 1, default, and both sides of the naive/sparse/NTT switches) and requested number of terms: products, div_mod, inv, log, exp, pow (any exponent, leading zeros), sqrt (existence and value), diff, intg, shifts, eval and prod of FPS, FormalPowerSeries, FPSNaive and ArrayFPSNaive, and the online RelaxedInv/Exp/Log/Pow/Sqrt after every append, satisfy their defining identity; multipoint evaluation, interpolation, Lagrange values on and off the nodes, Taylor shift, Newton basis, sample shifting, composition, compositional inverse, f(e^x), prod f(r^k x), subset sums, rook polynomials, Berlekamp-Massey (valid and shortest), n-th terms (n to 2^64), extended gcd (ax+by=g, monic, maximal) beyond the half-gcd switch, RationalFPS and VecSparseFPS agree with direct computation.",
 [I], "all short coefficient vectors; shapes at every algorithm switch; planted gcds and quotient patterns",
 "Special values (zero series, leading zeros, roots of unity, n below the first nonzero term, long second operands) and algorithm switches fail only for particular inputs.",
 ["library/polynomial/" + x + ".hpp" for x in ["array_fps_naive", "berlekamp_massey", "bostan_mori", "compose", "compose_exp", "compose_inv", "convert_to_newton_basis", "formal_power_series", "formal_power_series_relaxed", "fps", "fps_naive", "lagrange_interpolation", "multi_point_eval", "polynomial_gcd", "polynomial_interpolation", "polynomial_taylor_shift", "prod_f(r^k_x)", "rational_fps", "rook_polynomial", "shift_of_sampling_points", "subset_sum", "vec_sparse_fps"]],
 [("Newton iteration with NTT reuse", "FormalPowerSeries::update_inv, inv, exp, safe_sqrt"), ("sparse recurrences", "FPS::pow_sparse, exp_sparse, log_sparse, safe_sqrt_sparse"), ("half gcd", "internal::poly_gcd::half_gcd")], ["all coefficients, existence of roots"])
prop("C28", "Combinatorial sequences, factorial tables and set power series are exact",
 "For every n, k (in and out of range), modulus and order of requests: factorial tables (any growth order, small primes), factorial_large (any n below the modulus), inverse and power tables, binomial coefficients (tables, modulo any integer, small primes, prime powers, huge n, offline small r, full rows), Stirling 1/2, Bell, Bernoulli, Eulerian, Montmort and partition numbers, powers and power sums, sums of binomials over any query list, sums i^d r^i (finite, ranged, formal), random-walk counts, products of differences and modular square roots (also after a dynamic modulus changes) have their defining values; SetPowerSeries and ArraySetPowerSeries obey the subset-convolution algebra: product, inverse, sqrt, pow, exp, log, composition and zeta-domain arithmetic.",
 [I, H], "every n, k, modulus, query list and growth order within bounds against recurrence tables",
 "Table growth past a small modulus, carries in prime powers, last terms and out-of-range arguments only fail for particular parameters or call orders.",
 ["library/math/" + x + ".hpp" for x in ["array_set_power_series", "binomial_coefficient_sum", "factorial", "factorial_embeded", "factorial_large", "inv_mods", "modint_extension", "pow_mods", "product_of_differences", "set_power_series", "sum_i^d_r^i", "util"]] + ["library/sequence/" + x + ".hpp" for x in ["bell_number", "bernoulli_number", "binomial_coefficient", "binomial_coefficient_small_prime_mod", "binomial_coefficient_small_r_offline", "binomial_coefficitnt_enumeration", "eulerian_number", "montmort_number", "partition_number", "powers", "stirling_number1", "stirling_number1_small_prime_mod", "stirling_number2", "stirling_number2_small_prime_mod", "sum_of_powers"]],
 [("static table growth", "factorial::ensure"), ("block factorials", "factorial_large::_large_fac"), ("carry counting", "binom_prime_power_mod::operator()")], ["all table values, coefficients"])
prop("C29", "Linear algebra over fields, residue rings and F2 is exact",
 "For every matrix (any shape the operation admits, singular or not, sizes on both sides of the fast-multiplication switch and of machine words): Matrix, ArrayMatrix and MatrixF2 sums, products, powers, quotients, inverses (absent exactly for singular matrices), determinants (also modulo composites) and ranks equal their definitions; GaussianElimination (modular, F2, floating) and gaussian_elimination_f2 return exactly the solution set - existence, one solution, a basis of the kernel, its dimension; SolutionSpace and XorBase represent spans, sums and intersections; Hessenberg reduction is a similarity, characteristic_polynomial is det(xI-A), count_spanning_trees counts spanning trees of the multigraph, hafnian sums over perfect matchings, CirculantMatrix agrees with the dense matrix.",
 [I, H], "every small matrix/system over small rings against permutation expansion, full vector enumeration and span enumeration",
 "Wrong pivots, lost free columns, odd Strassen borders and word borders occur only for particular shapes and rank patterns.",
 ["library/linear_algebra/" + x + ".hpp" for x in ["array_matrix", "characteristic_polynomial", "circulant_matrix", "count_spanning_trees", "gaussian_elimination", "gaussian_elimination_f2", "hafnian", "hessenberg_reduction", "matrix", "matrix_f2", "xor_base"]],
 [("Strassen with odd borders", "Matrix operator*"), ("elimination", "GaussianElimination::solve, gaussian_elimination_f2"), ("similarity transform", "hessenberg_reduction")], ["solution sets, determinants, inverses, ranks, polynomials"])
prop("C30", "Geometry predicates, hulls, distances and areas match their definitions",
 "For every configuration of (integer) points, including duplicates, collinear and touching ones: orientation, containment in line/ray/segment/polygon/circle/convex hull, segment intersection and common points, equality of lines, rays, segments, areas, lattice-point counts (either orientation), convexity; convex hulls (boundary points in counter-clockwise order, also of no points), closest and farthest pairs, diameters, convex cuts, axis-parallel crossing counts and the order by argument (a strict weak order) are exact; the floating versions, circle tangents and intersections, intersection areas, triangle centres (in-, ex-, circumcircle, orthocentre), and 3D distances, projections and cross points between points, lines, rays, segments and planes are correct within 1e-6.",
 [I], "every small grid configuration against independent exact predicates, triangle cover, slice integration",
 "Degenerate positions (collinear, tangent, duplicate, all points on one line) hide from random tests; termination and order axioms are universal statements.",
 ["library/geom/" + x + ".hpp" for x in ["closest_pair", "convex_hull", "geometry", "geometry3d", "segment_intersections"]] + ["library/integral_geom/" + x + ".hpp" for x in ["closest_pair", "convex_hull", "convex_hull_inclusion", "count_lattice_point", "farthest_pair", "geometry", "inclusion", "point", "sort_points_by_argument"]],
 [("monotone chain", "convex_hull"), ("rotating calipers", "convex_diameter"), ("block merge", "closest_pair")], ["predicates, point sets, distances, areas"])
prop("C31", "Logic, offline connectivity, grid and offline range queries match brute force",
 "For every input within the documented domain: HornSAT and TwoSAT decide satisfiability exactly and return a satisfying (for Horn: least) assignment; largest squares, rectangles, and the list of maximal rectangles of every histogram and grid, and the area of a union of rectangles (touching, nested, duplicated, degenerate) are exact; inversion numbers, numbers of distinct subsequences and longest increasing subsequences (with reconstruction) are exact; Mo's algorithm visits states equal to exactly the queried ranges, under every query list; offline dynamic connectivity (components, component sums) answers every query as the graph at that moment, with repeated, multiple and never-removed edges; the frontier state of grid connectivity is a canonical form of the connectivity of the processed cells; static range queries for distinct count, mode, inversion number and xored mex are exact on every range including empty and full ones.",
 [I, H], "all small formulas, grids, histories and query lists against truth tables and direct scans",
 "Ties, empty ranges, duplicate edges, propagation of unit clauses and block borders fail only for particular inputs; the repository checks a handful of judge inputs.",
 ["library/algorithm/" + x + ".hpp" for x in ["horn_sat", "two_sat", "maximum_square", "maximum_rectangle", "area_of_union_of_rectangles", "mo", "inversion_number", "offline_dynamic_connectivity", "offline_dynamic_connectivity_component_sum"]] + ["library/dp/" + x + ".hpp" for x in ["number_of_subsequences", "longest_increasing_subsequence", "grid_connectivity"]] + ["library/range_query/" + x + ".hpp" for x in ["static_range_xored_mex_query", "static_range_mode_query", "static range_count_distinct", "static_range_inversion_number_query"]],
 [("unit propagation", "HornSAT::solve"), ("rollback over segment tree", "OfflineDynamicConnectivity::dcc"), ("block tables", "StaticRangeModeQuery, StaticRangeInversionNumberQuery"), ("frontier relabelling", "GridConnectivity")], ["satisfiability, assignments, counts, areas, query answers"])
prop("C32", "Utility containers, prefix sums, permutations, hashes and bit tricks are exact",
 "For every input: run-length encoding (and its consumers), coordinate compression, 1D/2D prefix sums, step sums and step views, permutation algebra (compose, inverse, powers with any 64-bit exponent, apply, minimal perfect hash), subset iterators (all subsets, fixed-size subsets, set bits, in order, also of the full mask), bit utilities on every integer width, ternary and binary searches, counts of pairs with a given sum, product ranges, rotations and transposes of grids, default-valued vectors, update proxies, element-wise pair, tuple and vector operators, variant helpers, iterator adaptors, set hashes (Zobrist: order-free, self-inverse) and container hashes (equal values hash equal), 32-bit pointers and object pools (distinct live objects, reuse after release) behave exactly as their definitions.",
 [I, H], "all small sequences, masks, permutations and operation histories",
 "Full-width masks, empty sequences, narrow integer types, negative exponents and default-constructed objects are exactly the cases no judge input contains.",
 ["library/util/" + x + ".hpp" for x in ["tuple_ops", "rot90", "run_length_encoder", "variant_utils", "hashes", "sum_count", "pair_ops", "default_operator", "default_vector", "grid_utils", "cumulative_sum_2d", "update_proxy_object", "cumulative_sum", "step_view", "bit_utils", "vector_ops", "transpose", "step_sum", "iter_util", "zobrist_hash", "coordinate_compressor", "search", "permutation", "subset_iterator", "pointer_32bit", "object_pool"]],
 [("bit enumeration", "all_subset, all_setbit, all_subset_k"), ("binary lifting", "Permutation::pow"), ("free list", "ObjectPool")], ["returned values, enumeration order, storage identity"])
prop("C33", "Readers, writers, parsers and printers round-trip every value",
 "For every value of the supported types (pairs, tuples, vectors, nested containers, 128-bit integers including both limits, booleans, strings), what the output operators print is the documented text and reading it back yields the value; the recursive-descent parsing helpers accept exactly the grammar, compute its value and stop at the right position; container helpers (bounds and neighbours in sorted containers, split/join, concat, digits) and the loop, rounding-division, chmin/chmax and nested-vector helpers of the template behave as their definitions; the tree printer draws each vertex and edge exactly once in order, the suffix-automaton printer lists exactly its nodes, transitions and links; has_operator traits are true exactly for types having the operator.",
 [I], "all small values, strings and trees",
 "Extreme integers, empty containers and particular tree shapes are not part of any judge input, and printing/parsing is not tested at all.",
 ["library/io/input_stream.hpp", "library/io/output_stream.hpp", "library/util/container_utils.hpp", "library/icpc/parsing.hpp", "library/debug/tree.hpp", "library/debug/suffix_automaton.hpp", "library/type_traits/operator.hpp", "library/type_traits/type_traits.hpp", "library/template.hpp"],
 [("128-bit text", "operator<< / operator>> for __int128_t"), ("recursive descent", "parsing::expression"), ("tree layout", "debug::tree_to_string")], ["printed text, read values"])
prop("C34", "Nimbers, affine maps and transform-based algebra obey their laws",
 "Nimber addition, multiplication, inverse, division and powers agree with the mex definition and satisfy the field axioms up to 64 bits; Affine and AffineClamp maps (any signs, any clamps including unbounded) compose to exactly the composed function, have the identity, compare, convert and round-trip through streams; transform_convolution of any number of factors and polynomial_eval by multipoint evaluation equal evaluation in the convolution algebra.",
 [I], "all small operands; all pairs of structured 64-bit operands",
 "Recursion levels of nim multiplication, sign flips of clamps and unbounded clamp ends are hit only by particular operands.",
 ["library/algebra/field/nimber.hpp", "library/algebra/monoid/affine.hpp", "library/algebra/monoid/affine_clamp.hpp", "library/convolution/convolution.hpp", "library/convolution/polynomial_eval_multipoint_eval.hpp"],
 [("Karatsuba nim product", "nimber operator*"), ("clamp composition", "AffineClamp::compose")], ["values of products, compositions and evaluations"])
