H = ["histories", "inputs"]
HI = ["inputs"]
LD = "linear_data_structures/"
MD = "miscellaneous_data_structures/"
TR = "trees/"
GR = "graphs/"

# ------------------------------------------------------------------ linear structures
prop("A01", "Fixed-size arrays store exactly what was written to each cell",
     """A fixed-size array keeps its length for life; reading a cell returns the value most recently written to it
     (by assignment, fill or construction) and writing one cell changes no other, in both the Python and the C++
     implementation. Reading outside [0, length) and writing at or beyond the length raise an index error, a construction whose size and data conflict is
     rejected, and a rejected call leaves the contents unchanged.""",
     H, "all element lists, all sequences of reads, writes and fills, both backends, every accepted constructor form",
     "The tests read a few cells of one five-element array; they sample neither write sequences nor both construction orders.",
     [LD + "arrays.py", LD + "_backend/cpp/arrays/OneDimensionalArray.hpp"],
     [("OneDimensionalArray", LD + "arrays.py:19"), ("C++ OneDimensionalArray", LD + "_backend/cpp/arrays/OneDimensionalArray.hpp:13")])
prop("A02", "Dynamic arrays keep items and order across growth and contraction",
     """Appending to a dynamic array adds the item after all others, deleting a position removes exactly that item (or nothing,
     if the position holds none), and no other item is lost, duplicated, altered or reordered, whatever growth or contraction happens
     underneath, for any history of appending items, deleting positions, filling, and writing items (or nothing) into any cell; both backends agree. After every append or delete the array is no emptier than its load factor allows unless it has just
     been compacted to at most twice the number of its items plus one.""",
     H, "all sequences of append/delete/overwrite/fill over any initial contents, size and load factor, both backends",
     "Contraction happens only after particular mixes of deletes and appends; the tests run one such mix.",
     [LD + "arrays.py", LD + "_backend/cpp/arrays/DynamicOneDimensionalArray.hpp"],
     [("append/delete/_modify", LD + "arrays.py:345"), ("C++ append/delete/_modify", LD + "_backend/cpp/arrays/DynamicOneDimensionalArray.hpp:81")])
prop("A03", "Multi-dimensional arrays address every cell independently",
     """For any shape, each valid index tuple of a multi-dimensional array denotes its own cell: a read returns the last value written through
     that tuple or by fill, and no write is visible through a different tuple. Its shape is the one it was created with, and an index with the wrong
     number of dimensions, or too large in any dimension, is refused with an index error.""",
     H, "all shapes of 1 to 4 dimensions and all sequences of writes, fills and reads",
     "Aliasing between cells depends on the shape; the tests use two shapes and a handful of cells.",
     [LD + "arrays.py"], [("MultiDimensionalArray", LD + "arrays.py:142")])
prop("A04", "Linked lists behave as sequences in all four variants",
     """Singly, doubly, singly circular and doubly circular lists all behave as a sequence: every insertion, removal and
     indexing operation (with positive or negative indices) has the effect and result it has on a sequence, and an index outside the
     list raises an index error and changes nothing. The reported size equals the number of nodes reached from the head, the tail is the last of them, forward and
     backward links are mutually consistent, and the circular variants close on the head.""",
     H, "all operation sequences over the four list variants, with every in-range and out-of-range index",
     "Link defects (stale tail, unclosed ring, wrong backward link) surface only after particular operation orders and boundary indices.",
     [LD + "linked_lists.py"], [("insert_at/extract", LD + "linked_lists.py:130"), ("circular lists", LD + "linked_lists.py:450")])
prop("A05", "A skip list is an ordered collection whatever its random levels",
     """A skip list holds exactly the keys inserted and not removed, in ascending order on its lowest level, whatever the
     random level choices and whatever keys that can be ordered (numbers, infinite ones too, strings, tuples); searching finds a key and its data if and only if it is held, and extracting removes exactly that key or raises a key error
     leaving the list unchanged. Every level is an ordered sub-sequence of the one below and the reported size is the number of keys held.""",
     H, "all insert/extract/search histories, all outcomes of the level coin flips",
     "Level choices are random: a test sees one tower shape per run.",
     [LD + "linked_lists.py"], [("SkipList", LD + "linked_lists.py:640")])
# ------------------------------------------------------------------ stacks and queues
prop("Q01", "Stacks are last-in first-out in every implementation",
     """For any history of operations, popping a stack returns and removes the most recently pushed item that is still
     there, looking at the top returns it without removing it, and the length is the number of items held, in the array (Python and C++) and linked-list implementations alike.
     Popping an empty stack raises an index error and leaves the stack usable.""",
     H, "all push/pop/peek histories over any initial items, all implementations and backends",
     "The tests push three items and pop them; the array beneath grows and contracts only in longer mixed histories.",
     [MD + "stack.py", MD + "_backend/cpp/stack/ArrayStack.hpp"],
     [("ArrayStack.push/pop", MD + "stack.py:108"), ("LinkedListStack", MD + "stack.py:143"), ("C++ ArrayStack", MD + "_backend/cpp/stack/ArrayStack.hpp:70")])
prop("Q02", "Queues are first-in first-out, and double-ended queues act at both ends",
     """Items leave a queue from the left in exactly the order they entered on the right, none lost, duplicated or altered, for any interleaving of insertions and
     removals; double-ended queues do so symmetrically at both ends, in the array and linked-list implementations alike. The length, emptiness, printed contents, front and rear
     always describe the items currently queued, removing from an empty queue raises an index error, and operations at the other end of an ordinary queue are refused.""",
     H, "all append/appendleft/pop/popleft histories over any initial items, both implementations, single and double ended",
     "The queue and the dynamic array beneath it move independently; they disagree only after particular interleavings of removals and insertions.",
     [MD + "queue.py"], [("ArrayQueue", MD + "queue.py:118"), ("LinkedListQueue", MD + "queue.py:220")])
prop("Q03", "Priority queues always release an item of extreme priority",
     """Popping a priority queue removes and returns an item whose priority no queued item beats under the queue's comparator, each pushed item exactly once, in the
     linked-list, binary-heap and binomial-heap implementations alike. The item shown by peek is the one the next pop returns, the emptiness flag is accurate, and
     peeking or popping when empty raises an index error.""",
     H, "all push/pop/peek histories with arbitrary (tied, negative) priorities and repeated items, all implementations, every comparator (default, reversed, by magnitude)",
     "The tests push three items in one order.",
     [MD + "queue.py", TR + "heaps.py", MD + "binomial_trees.py"],
     [("PriorityQueue implementations", MD + "queue.py:396"), ("heap operations", TR + "heaps.py:94")])
# ------------------------------------------------------------------ heaps
prop("H01", "Binary, ternary and d-ary heaps keep heap order and extract in sorted order",
     """After building from any elements and after every insertion or extraction, no node of a heap precedes its parent in the heap's order (min or max), and the
     heap holds exactly the inserted, not yet extracted key/data pairs. Extraction returns a pair of extreme key and removes only it; extracting from an empty heap
     raises an index error.""",
     H, "all element lists, all insert/extract histories, min and max heaps of every arity",
     "The tests follow fixed insertion orders for arities 2, 3 and 4.",
     [TR + "heaps.py"], [("_build/_heapify/insert/extract", TR + "heaps.py:94")])
prop("H02", "Binomial heaps merge, insert and delete the minimum without losing items",
     """A binomial heap holds exactly the pairs inserted or merged in and not deleted; the minimum it reports is a smallest key and deleting the minimum removes exactly
     that pair. After every operation its trees are heap-ordered binomial trees of pairwise distinct order, so that their orders spell the number of items in binary.""",
     H, "all insert/merge/find-minimum/delete-minimum/decrease-key histories over several heaps",
     "Carry propagation between trees of equal order depends on the sizes merged; the tests merge two fixed heaps.",
     [TR + "heaps.py", MD + "binomial_trees.py"], [("BinomialHeap", TR + "heaps.py:395"), ("BinomialTree.add_sub_tree", MD + "binomial_trees.py:45")])
# ------------------------------------------------------------------ misc structures
prop("D01", "Disjoint-set forests maintain exactly the requested partition",
     """Two members of a disjoint-set forest have the same representative if and only if they have been connected by a chain of unions, whatever the order of unions and
     lookups; the representative is itself a member of the set, making an existing member again changes nothing, and the number of sets, the size of a member's set and the listing of sets agree with that partition.
     Asking to make an element the representative makes it the representative of its own set and changes no membership, and operations on unknown keys raise a key error.""",
     H, "all make-set/find/union/make-root/listing histories",
     "Path compression and union by size restructure the forest differently for every history.",
     [MD + "disjoint_set.py"], [("DisjointSetForest", MD + "disjoint_set.py:6")])
prop("D02", "A multiset counts occurrences exactly",
     """The count of an element is the number of times it was added minus the number of times it was successfully removed, never negative; the size is the sum
     of the counts and adding or removing one element does not affect the count of another. Removing an element that is not present changes nothing,
     and the lower and upper bounds of a probe are the smallest held elements not less than it and greater than it.""",
     H, "all add/remove/count histories over any elements",
     "The multiset sits on a balanced tree whose rebalancing depends on the whole history; the tests add and remove a few items.",
     [MD + "multiset.py"], [("Multiset", MD + "multiset.py:5")])
prop("D03", "Static range queries return the combination over exactly the queried range",
     """For any array, any documented query function (minimum, maximum, greatest common divisor, sum) and any valid inclusive range, a static range query returns the
     function folded over exactly the elements in that range, with the array and the sparse-table algorithms agreeing. A range that is empty is refused with a value error, one that leaves the array with an
     index error, and an empty array on construction.""",
     HI, "all arrays, all ranges, all algorithms and query functions",
     "Off-by-one and overlap errors appear only for particular lengths and range ends; the tests query one random array.",
     [MD + "algorithms.py", MD + "sparse_table.py"], [("RangeQueryStatic*", MD + "algorithms.py:20"), ("SparseTable.query", MD + "sparse_table.py:75")])
prop("D04", "Dynamic range queries reflect every update made before them",
     """For any array, query function (minimum, maximum, sum, greatest common divisor) and interleaving of point updates and queries, each query returns the function folded over exactly the queried inclusive range of the
     current contents, with the array and the segment-tree algorithms agreeing. A range that is empty is refused with a value error, one that leaves the array with an index error; a segment tree used by itself
     refuses queries and updates with a value error until it is built.""",
     H, "all arrays, all interleavings of updates and queries, all algorithms",
     "A stale inner node shows only for particular update/query pairs.",
     [MD + "algorithms.py", MD + "segment_tree.py"], [("RangeQueryDynamic*", MD + "algorithms.py:180"), ("ArraySegmentTree", MD + "segment_tree.py:90")])
prop("D05", "A one-dimensional segment tree reports exactly the stabbed intervals",
     """For any collection of closed intervals and any query point, the segment tree reports exactly the intervals that contain the point.""",
     HI, "all interval collections (nested, touching, duplicate, degenerate) and all query points",
     "The answer depends on how the intervals cut one another; the tests use one collection and a few points.",
     [TR + "space_partitioning_trees.py"], [("OneDimensionalSegmentTree", TR + "space_partitioning_trees.py:35")])
prop("D06", "Binary indexed trees answer sums over the updated array",
     """After any sequence of point updates of an array of numbers, every prefix sum and range sum a binary indexed tree reports equals the sum over the array with
     those updates applied, in the Python and the C++ implementation.""",
     H, "all arrays, all interleavings of updates and queries, both backends",
     "The tests make one update on one array.",
     [TR + "binary_trees.py", TR + "_backend/cpp/BinaryIndexedTree.hpp"], [("BinaryIndexedTree", TR + "binary_trees.py:1690")])
# ------------------------------------------------------------------ trees
prop("T01", "Search trees are exact maps from keys to data, kept in key order",
     """For any history of insertions, deletions and searches, a binary search, AVL, red-black, splay or treap tree holds exactly the keys inserted and not since deleted, each with the data
     given last; searching finds exactly those keys, deletion reports success exactly when the key was present, and an in-order walk yields the keys in ascending order.
     A key that cannot be compared with those held is refused with TypeError by every operation and changes nothing. Parent and child links always agree and every held node is reachable from the root, with either backend.""",
     H, "all insert/delete/search histories over any key set (integers, strings, tuples), all tree kinds, both backends",
     "The tests follow a few fixed histories; node relocation on contraction and the many deletion cases need particular histories.",
     [TR + "binary_trees.py", LD + "arrays.py", TR + "_backend/cpp/BinarySearchTree.hpp"],
     [("BinarySearchTree.insert/delete/search", TR + "binary_trees.py:213"), ("SelfBalancingBinaryTree rotations", TR + "binary_trees.py:700"), ("ArrayForTrees._modify", LD + "arrays.py:430")])
prop("T02", "Order statistics name the i-th smallest key",
     """In a search tree created with order statistics enabled, after any history of insertions and deletions, the rank of a held key is its one-based position among the held keys in
     ascending order and selecting position i returns the node with the i-th smallest key, so that the two are inverse. The rank of an absent key is none and selecting a position outside 1..n raises a value error.""",
     H, "all insert/delete histories, every held key and position, all tree kinds, both backends",
     "Subtree sizes must be repaired along every path of every deletion case and rotation; the tests use a handful of fixed deletions.",
     [TR + "binary_trees.py", TR + "_backend/cpp/BinarySearchTree.hpp"], [("select/rank/_update_size", TR + "binary_trees.py:203")])
prop("T03", "Tree bounds return the nearest key on the correct side",
     """For any set of held keys and any probe, the lower bound in a search tree is the smallest held key not less than the probe and the upper bound is the smallest held key greater than the probe; none when no such key exists.""",
     H, "all histories and probes, Python and C++ backends",
     "The tests probe one tree.",
     [TR + "binary_trees.py", TR + "_backend/cpp/BinarySearchTree.hpp"], [("lower_bound/upper_bound", TR + "binary_trees.py:262")])
prop("T04", "Lowest common ancestors are the deepest shared ancestors",
     """For any two keys held by a search tree, both offered algorithms return the key of the deepest node that has both in its subtree (a node counts as its own ancestor); if either key
     is absent a value error is raised.""",
     H, "all tree shapes and key pairs, both algorithms, both backends",
     "The tests query one fixed tree; ancestor-of-itself and root cases depend on the shape.",
     [TR + "binary_trees.py", TR + "_backend/cpp/BinarySearchTree.hpp"], [("_lca_1/_lca_2", TR + "binary_trees.py:530")])
prop("T05", "AVL trees stay height balanced",
     """After any history of insertions and deletions, the two subtrees of every node of an AVL tree differ in height by at most one, the balance factor reported for a node is that difference,
     and the keys are still in search order.""",
     H, "all insert/delete histories, both backends",
     "Each of the rotation cases on deletion needs a particular shape; the tests exercise some of them once.",
     [TR + "binary_trees.py", TR + "_backend/cpp/AVLTree.hpp"], [("AVLTree rotations and balancing", TR + "binary_trees.py:1010")])
prop("T06", "Red-black trees keep the colour rules",
     """After any history of insertions and deletions, the root of a red-black tree is black, no red node has a red child, every path from
     a node down to a missing child passes the same number of black nodes, and the keys are in search order.""",
     H, "all insert/delete histories, both backends",
     "The deletion fix-up has many mirrored cases that fixed test histories reach once or never.",
     [TR + "binary_trees.py", TR + "_backend/cpp/RedBlackTree.hpp"], [("RedBlackTree fixups", TR + "binary_trees.py:1300")])
prop("T07", "Splay trees bring the accessed key to the root and split and join losslessly",
     """After inserting a key into a splay tree that key is at the root; deleting a key keeps all others. Splitting at a key leaves two trees that together hold exactly the original keys
     with all keys of one side smaller than all of the other (splitting at an absent key changes nothing), and joining to a tree one whose keys are all larger holds exactly the keys of both, while
     joining trees whose keys overlap is refused with a value error.""",
     H, "all insert/splay/delete/split/join histories, both backends",
     "The zig, zig-zig and zig-zag mixtures depend on the shape left by the whole history.",
     [TR + "binary_trees.py", TR + "_backend/cpp/SplayTree.hpp"], [("SplayTree", TR + "binary_trees.py:1110")])
prop("T08", "Treaps and Cartesian trees keep heap order on priorities",
     """After any history of insertions and deletions, a treap or (created empty) Cartesian tree is in search order on its keys and in heap order on its
     priorities, and the keys, data and priorities it holds are exactly those inserted and not deleted.""",
     H, "all histories of insertions with any priorities (or any random draws) and deletions, both backends",
     "The tests use two fixed trees; the treap's priorities are random.",
     [TR + "binary_trees.py", TR + "_backend/cpp/CartesianTree.hpp"], [("CartesianTree._bubble_up/_trickle_down", TR + "binary_trees.py:845"), ("Treap", TR + "binary_trees.py:960")])
prop("T09", "Tree traversals visit every node once, in their defining order",
     """For any nonempty binary tree, pre-order, in-order, post-order, the out-order variant and breadth-first traversal each visit every node
     of the tree, and each exactly once, in the order that defines them, in the Python and C++ backends and from any start node.""",
     HI, "all tree shapes, all traversal orders, both backends",
     "The iterative traversals keep a stack and a visited record whose size and indexing depend on the tree's shape and history; the tests walk one shape.",
     [TR + "binary_trees.py", TR + "_backend/cpp/BinaryTreeTraversal.hpp"], [("BinaryTreeTraversal", TR + "binary_trees.py:1480")])
# ------------------------------------------------------------------ strings
prop("S01", "A trie stores exactly the inserted strings",
     """After any history of insertions and deletions of strings, a trie reports a string as present if and only if it was inserted and not deleted since, reports a prefix as present if and only if some stored
     string starts with it (the empty prefix is always present), and lists for a prefix exactly the stored strings that start with it. Deleting a string leaves every other stored string untouched and reports whether the string was there.""",
     H, "all insert/delete/query histories over strings that are prefixes of one another",
     "Deleting a string that is a prefix or an extension of another is where tries break; the tests delete two words.",
     [MD.replace("miscellaneous_data_structures", "strings") + "trie.py"], [("Trie", "strings/trie.py:40")])
prop("S02", "String matching reports exactly the occurrences of the pattern",
     """For any text and non-empty pattern, every string matching algorithm offered (KMP, Rabin-Karp, Boyer-Moore, Z-function) reports exactly the positions at which the
     pattern occurs in the text, overlapping ones included, in ascending order and without duplicates.""",
     HI, "all texts and patterns, all algorithms",
     "Failure tables, hashes and shift rules err on periodic, overlapping or colliding inputs that fixed examples do not contain.",
     ["strings/algorithms.py"], [("find and its algorithms", "strings/algorithms.py:10")])
# ------------------------------------------------------------------ array algorithms
prop("O01", "Every sorting function orders exactly the requested slice",
     """For any array and any slice, each sorting function leaves the slice holding the same items in the comparator's order, with empty cells after
     all items, and leaves everything outside the slice untouched; this holds for every algorithm offered, sequential or parallel, Python or C++, with default or custom comparator where supported.""",
     HI, "all arrays (duplicates, empty cells, already or reverse ordered), all slices, all algorithms, both array kinds and both backends",
     "The tests sort random arrays in one or two ways each and rarely with duplicates, sub-slices or empty cells.",
     [LD + "algorithms.py", LD + "_backend/cpp/algorithms/quick_sort.hpp", LD + "_backend/cpp/algorithms/quadratic_time_sort.hpp"],
     [("sorting functions", LD + "algorithms.py:40"), ("C++ sorts", LD + "_backend/cpp/algorithms/quadratic_time_sort.hpp:12")])
prop("O02", "Searching an array finds a matching position in the slice or reports none",
     """Linear search over any slice, and binary and jump search over any ordered slice, return a position inside the slice that holds the value when there is one and none otherwise; linear search returns the first such position. The
     array is not modified, and the Python and C++ implementations meet the same contract.""",
     HI, "all (ordered) arrays with duplicates, all slices, all values, both backends",
     "The tests search a few arrays, nearly always over the whole array.",
     [LD + "algorithms.py", LD + "_backend/cpp/algorithms/misc_algorithms.hpp"], [("linear/binary/jump search", LD + "algorithms.py:1600")])
prop("O03", "Order predicates and bounds agree with the order of the slice",
     """The order check answers true exactly when no later item of the slice strictly precedes its predecessor; for an ordered slice, the lower bound is the first position whose item is not less
     than the value and the upper bound the first whose item is greater, each the end of the slice if there is none.""",
     HI, "all arrays and slices, duplicates included, default and custom comparators, both backends where offered",
     "The tests check a few arrays without repeated values.",
     [LD + "algorithms.py", LD + "_backend/cpp/algorithms/misc_algorithms.hpp"], [("is_ordered/upper_bound/lower_bound", LD + "algorithms.py:1100")])
prop("O04", "Next and previous permutation step through lexicographic order",
     """For any slice of comparable items, the next (previous) permutation is the smallest (largest) arrangement of the same items that is lexicographically greater (smaller), and the report of success is true exactly when
     one exists; otherwise the slice becomes its first (last) arrangement. The rest of the array, and the argument itself, stay unchanged.""",
     HI, "all arrays with repeated items, all slices",
     "Repeated items decide the corner cases; the tests use mostly distinct items.",
     [LD + "algorithms.py"], [("next_permutation/prev_permutation", LD + "algorithms.py:1290")])
prop("O05", "Longest subsequences are genuine and of maximum length",
     """The longest common subsequence returned for two arrays is a subsequence of both and no longer common subsequence exists; the longest increasing subsequence
     returned for an array is a strictly increasing subsequence of it and no longer one exists.""",
     HI, "all pairs of arrays, all arrays",
     "Optimality is a claim about all subsequences; the tests compare a few fixed answers.",
     [LD + "algorithms.py"], [("longest_common_subsequence", LD + "algorithms.py:1000"), ("longest_increasing_subsequence", LD + "algorithms.py:1230")])
prop("O06", "Parallel matrix multiplication equals the matrix product",
     """For any two matrices of compatible shapes and any number of worker threads, parallel matrix multiplication returns their product.""",
     ["inputs", "schedules"], "all compatible shapes (including non-square), all entries, all thread counts",
     "The tests multiply fixed square matrices.",
     [LD + "algorithms.py"], [("matrix_multiply_parallel", LD + "algorithms.py:660")])
# ------------------------------------------------------------------ graphs
prop("G01", "Graphs report exactly the vertices and edges put into them",
     """After any history of adding and removing vertices and edges, an adjacency-list or adjacency-matrix graph (where each operation is supported) reports exactly the vertices present, answers adjacency and neighbours according to the edges present, gives
     for each edge the weight set last and none for absent edges, and counts vertices and edges correctly. Python and C++ graphs agree.""",
     H, "all histories of add/remove vertex/edge with arbitrary names and weights, both representations, both backends",
     "Stale entries appear only when removals and re-additions are combined; the tests remove one or two edges once.",
     [GR + "adjacency_list.py", GR + "adjacency_matrix.py", GR + "_backend/cpp/AdjacencyList.hpp", GR + "_backend/cpp/AdjacencyMatrix.hpp"],
     [("AdjacencyList", GR + "adjacency_list.py:8"), ("AdjacencyMatrix", GR + "adjacency_matrix.py:8")])
prop("G02", "Graph traversals visit exactly the reachable vertices, each once",
     """Breadth-first and depth-first traversal from any source apply the visiting operation to every vertex reachable from it and to no other, follow only edges of the graph, and never process
     a vertex twice; the breadth-first ones reach vertices in order of their distance, and a false result from the operation stops the traversal. The parallel variant visits the same vertices whatever the thread count.""",
     ["inputs", "schedules"], "all graphs (cyclic, disconnected, with self-loops), all sources, both representations, sequential and parallel, both backends",
     "The tests traverse three fixed acyclic graphs.",
     [GR + "algorithms.py", GR + "_backend/cpp/Algorithms.hpp"], [("breadth_first_search", GR + "algorithms.py:35"), ("depth_first_search", GR + "algorithms.py:640")])
prop("G03", "Minimum spanning trees span at minimum weight",
     """For any undirected weighted graph (both directions of each edge stored), the result of every minimum-spanning-tree algorithm (Kruskal and Prim, sequential or parallel) connects all vertices that the graph connects (Prim's algorithm: the vertices of one component), uses only edges of the graph with their weights,
     has no cycle, and no spanning tree (of a component) weighs less.""",
     ["inputs", "schedules"], "all weighted graphs, connected, disconnected or empty, including tied, zero and negative weights, all algorithms and thread counts, both backends where offered",
     "Minimality is a claim over all spanning trees; the tests check one graph.",
     [GR + "algorithms.py", GR + "_backend/cpp/Algorithms.hpp"], [("minimum_spanning_tree", GR + "algorithms.py:230"), ("minimum_spanning_tree_parallel", GR + "algorithms.py:390")])
prop("G04", "Single-source shortest paths report the true distances and valid predecessors",
     """For any directed weighted graph with non-negative weights (and, for the Bellman-Ford-based algorithm, negative ones without negative cycles) the distance reported for each vertex is the least
     total weight of any path to it from the source, infinite if none; following predecessors from a reached vertex spells such a path. Reachable negative cycles are reported as an error.""",
     HI, "all graphs, weights and sources, all algorithms, both representations, both backends where offered",
     "Optimality is a claim over all paths; the tests check two or three fixed graphs.",
     [GR + "algorithms.py", GR + "_backend/cpp/Algorithms.hpp"], [("shortest_paths", GR + "algorithms.py:700")])
prop("G05", "All-pairs shortest paths agree with the least path weights",
     """For any directed weighted graph without negative cycles, every all-pairs algorithm reports for each ordered pair of vertices the least total weight of
     a path between them, infinite if none, and any predecessor it reports for a vertex reachable from a different one is the vertex before it on such a path. Johnson's algorithm reports a negative cycle as an error.""",
     HI, "all graphs and weights, Floyd-Warshall and Johnson, both representations",
     "The tests check a single three-vertex graph.",
     [GR + "algorithms.py"], [("all_pair_shortest_paths", GR + "algorithms.py:880")])
prop("G06", "Topological orders respect every edge, and cycles are refused",
     """For any directed acyclic graph, topological sorting (sequential or parallel, any thread count) lists every vertex exactly once with each edge going from an earlier to a later vertex; for a graph with a cycle it raises a value error.""",
     ["inputs", "schedules"], "all directed graphs, acyclic and cyclic, both algorithms, all interleavings of the parallel workers",
     "The tests sort one fixed graph.",
     [GR + "algorithms.py"], [("topological_sort", GR + "algorithms.py:1010"), ("topological_sort_parallel", GR + "algorithms.py:1075")])
prop("G07", "Strongly connected components partition the vertices by mutual reachability",
     """For any directed graph, each algorithm for strongly connected components returns every vertex in exactly one component, with two vertices in the same
     component if and only if each is reachable from the other.""",
     HI, "all directed graphs, Kosaraju and Tarjan",
     "The tests check two fixed graphs.",
     [GR + "algorithms.py"], [("strongly_connected_components", GR + "algorithms.py:560")])
prop("G08", "Maximum flow equals the minimum cut",
     """For any directed graph with non-negative integer capacities and any two distinct vertices, each maximum-flow algorithm returns the capacity of a minimum
     cut separating the source from the sink.""",
     HI, "all capacitated graphs, source and sink pairs, Edmonds-Karp and Dinic",
     "Optimality is a claim over all cuts; the tests check three fixed graphs.",
     [GR + "algorithms.py"], [("max_flow", GR + "algorithms.py:1190")])
prop("G09", "Bridges are exactly the edges whose removal disconnects",
     """For any undirected graph (both directions of each edge stored) the bridges reported are exactly the edges whose removal increases the number of connected components, each reported once.""",
     HI, "all undirected graphs, disconnected ones included",
     "The tests check three fixed graphs.",
     [GR + "algorithms.py"], [("find_bridges", GR + "algorithms.py:1330")])
prop("G10", "Graph queries leave the graph as they found it",
     """Running a query on a graph (traversal, spanning tree, shortest paths, topological sort, components, flow, bridges) changes neither its vertices nor its edges nor their weights, so the
     same query can be asked again with the same answer; nor does changing a returned spanning tree change the graph.""",
     H, "all graphs and all query functions, repeated and interleaved",
     "The tests run each algorithm once on a freshly built graph and never look at the graph again.",
     [GR + "algorithms.py"], [("query functions", GR + "algorithms.py:1")])
prop("A06", "Containers hold only items of their declared type",
     """Everything a typed container holds is empty or of its type: the declared type of a one-dimensional, multi-dimensional or dynamic array, the type of the items of a stack or queue on an array (that of the
     first item put into an empty one). An item of another type is converted by the Python backend if its type can be made from it, and refused otherwise; the C++ backend refuses it with TypeError. Whether given on
     construction, as initial value, by assignment, filling or insertion at either end, what is refused changes nothing, now or later, and the items already held are never changed by what is put beside them.""",
     HI, "all containers on arrays, all histories of well and badly typed items",
     "The tests hold integers in arrays of integers; what a refused or converted item does to the others and to later calls is never asked.",
     [LD + "arrays.py", LD + "_backend/cpp/arrays/OneDimensionalArray.hpp", LD + "_backend/cpp/arrays/DynamicOneDimensionalArray.hpp", MD + "queue.py", MD + "stack.py"],
     [("__setitem__/fill/append", LD + "arrays.py:130"), ("appendleft", MD + "queue.py:157")])
prop("N01", "Nodes and edges carry what they were given",
     """Every node and edge class (nodes of trees, lists, skip lists, tries, disjoint sets and graphs, edges of graphs), in every backend it is offered in, reads back exactly what it was given or assigned last:
     integers of any size, floats, any text and any object; in C++ an edge refuses what it cannot hold and keeps its value, and fields cannot be deleted nor names be anything but text. Assigning a field leaves the others alone, and str shows the current fields. A graph node
     is adjacent to exactly the nodes it was made with or added since and not removed, whatever becomes of the list it was given; children keep their order and know their parent, and trie children are found by character.""",
     HI, "all node and edge classes, both backends, all histories of assignments and of neighbours and children added and removed",
     "The tests print one node of each class.",
     ["utils/misc_util.py", "utils/_backend/cpp/GraphNode.hpp", "utils/_backend/cpp/AdjacencyListGraphNode.hpp", "utils/_backend/cpp/GraphEdge.hpp", "utils/_backend/cpp/TreeNode.hpp"],
     [("AdjacencyListGraphNode", "utils/misc_util.py:374"), ("GraphEdge", "utils/misc_util.py:476")])
prop("X01", "The C++ trees agree with the Python trees",
     """After any history of insertions, deletions, splits and joins, each tree kind offered with a C++ backend (binary search, AVL, red-black, splay, Cartesian tree and treap) answers every question as its
     Python counterpart is specified to: the same keys found with the same data, the same ranks and selections, bounds, lowest common ancestors and traversals, on a tree with consistent links that keeps
     the discipline of its kind (balance, colours, splaying, heap order). Keys that are equal count as the same key, whichever object they are.""",
     H, "all histories over any keys (integers of any size, strings, tuples), all tree kinds with a C++ backend, all queries",
     "The tests replay the same few histories on each backend and never compare them beyond those.",
     [TR + "_backend/cpp/BinarySearchTree.hpp", TR + "_backend/cpp/AVLTree.hpp", TR + "_backend/cpp/RedBlackTree.hpp", TR + "_backend/cpp/SplayTree.hpp", TR + "_backend/cpp/Treap.hpp"],
     [("C++ trees", TR + "_backend/cpp/trees.cpp:1")])
prop("X02", "What is not offered is refused",
     """Every algorithm, container implementation, traversal order and backend the library offers can be asked for by its name and answers; asking for one that is not offered (an unknown name, an algorithm
     a graph representation or backend does not have, a backend a class does not have, a vertex added to or removed from an adjacency matrix) raises NotImplementedError, or ValueError for a backend,
     instead of returning nothing or an answer to something else, and changes nothing.""",
     HI, "all entry points, names, implementations and backends",
     "The tests ask for a few unknown names and never for an algorithm the C++ backend lacks.",
     [GR + "algorithms.py", "utils/misc_util.py", MD + "stack.py", "strings/algorithms.py"],
     [("query functions", GR + "algorithms.py:85"), ("raise_if_backend_is_not_python", "utils/misc_util.py:35")])
prop("X03", "Errors of the caller's own functions come back and lose nothing",
     """When a function the caller passed (comparator, choice of pivot, visitor, fold) or the comparison of the caller's own items (Python backend) raises, at any of the times it is consulted, exactly that exception
     reaches the caller and, where one thread consults, nothing is asked after it. Questions (searches, bounds, ranks, lowest common ancestors, tests for order, permutations, range queries, traversals, peeks), pops from
     a linked-list priority queue and insertions into a plain binary search tree then leave the structure as if the call had not been made; a sort leaves the same items in its slice and every other cell
     alone; and a change of a balancing tree or a heap loses nothing but, at most, the item it was about, the tree still finding the keys it holds. Calls that do not reach the failing consultation, and
     later calls, answer as usual.""",
     HI, "all algorithms and structures that consult the caller, both backends, and every consultation at which it may raise",
     "No test passes a function that raises.",
     [LD + "algorithms.py", LD + "_backend/cpp/algorithms/quadratic_time_sort.hpp", TR + "binary_trees.py", TR + "_backend/cpp/BinarySearchTree.hpp", TR + "_backend/cpp/RedBlackTree.hpp", MD + "queue.py", GR + "algorithms.py"],
     [("merge_sort_parallel", LD + "algorithms.py:59"), ("breadth_first_search_parallel", GR + "algorithms.py:127")])
prop("P01", "What is printed is what is held",
     """The printed form of a structure denotes exactly its contents after any history: an array's cells in order, the items of a dynamic array, stack, queue or linked list in order, the nodes of a binary
     tree (of every kind, in both backends, also when empty) as entries that refer to one another so that reading them in order gives exactly the keys and data held, a heap's
     entries with their children, an m-ary tree's nodes, every level of a sparse table, every node of a segment tree with its combined value, and the intervals kept at each
     node of an interval tree. Printing never fails and never changes what it prints.""",
     HI, "all structures that can be printed, all histories and inputs",
     "The tests compare a few dozen literal strings, mostly of structures that were only built up.",
     [LD + "arrays.py", LD + "linked_lists.py", TR + "binary_trees.py", MD + "segment_tree.py", MD + "sparse_table.py", TR + "space_partitioning_trees.py", TR + "heaps.py", TR + "m_ary_trees.py", "utils/misc_util.py"],
     [("__str__ of the trees", TR + "binary_trees.py:169"), ("__str__ of the segment tree", MD + "segment_tree.py:101")])
