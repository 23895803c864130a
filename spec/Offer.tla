--------------------------------- MODULE Offer ---------------------------------
(* What can be asked for by name.  A request names an entry point, an algorithm  *)
(* (or traversal order, or number of dimensions), an implementation and a        *)
(* backend.  What is offered is answered; anything else is refused, and a        *)
(* refusal leaves everything as it was.                                          *)
EXTENDS Base
L == "adjacency_list"
M == "adjacency_matrix"
PyOnly == { "merge_sort_parallel", "brick_sort", "brick_sort_parallel", "heapsort", "counting_sort", "bucket_sort",
            "cocktail_shaker_sort", "intro_sort", "longest_common_subsequence", "longest_increasing_subsequence",
            "upper_bound", "lower_bound", "next_permutation", "prev_permutation", "Trie", "SinglyLinkedList",
            "DoublyLinkedList", "SinglyCircularLinkedList", "DoublyCircularLinkedList", "SkipList",
            "MultiDimensionalArray", "DisjointSetForest", "BinomialTree", "SparseTable", "BinaryHeap", "TernaryHeap",
            "DHeap", "BinomialHeap", "OneDimensionalSegmentTree", "MAryTree" }
TwoBackends == { "quick_sort", "bubble_sort", "selection_sort", "insertion_sort", "shell_sort", "radix_sort", "is_ordered",
                 "linear_search", "binary_search", "jump_search", "OneDimensionalArray", "DynamicOneDimensionalArray",
                 "BinaryTree", "BinarySearchTree", "AVLTree", "Treap", "SplayTree", "RedBlackTree", "CartesianTree",
                 "BinaryIndexedTree" }
Named == { "breadth_first_search", "breadth_first_search_parallel", "depth_first_search", "minimum_spanning_tree",
           "minimum_spanning_tree_parallel", "strongly_connected_components", "shortest_paths", "all_pair_shortest_paths",
           "topological_sort", "topological_sort_parallel", "max_flow", "find_bridges", "Graph", "change", "Queue",
           "PriorityQueue", "Stack", "RangeQueryStatic", "RangeQueryDynamic", "ArraySegmentTree", "find", "dfs_order",
           "bfs_strategy" }
Entries == PyOnly \cup TwoBackends \cup Named
GraphEntries == { "breadth_first_search", "breadth_first_search_parallel", "depth_first_search", "minimum_spanning_tree",
           "minimum_spanning_tree_parallel", "strongly_connected_components", "shortest_paths", "all_pair_shortest_paths",
           "topological_sort", "topological_sort_parallel", "max_flow", "find_bridges" }
OnPython(e) ==
  CASE e \in PyOnly \cup TwoBackends -> { <<"", "">> }
    [] e \in { "breadth_first_search", "breadth_first_search_parallel", "depth_first_search", "find_bridges" } -> { "" } \X { L, M }
    [] e \in { "minimum_spanning_tree", "minimum_spanning_tree_parallel" } -> { <<"kruskal", L>>, <<"kruskal", M>>, <<"prim", L>> }
    [] e = "strongly_connected_components" -> { "kosaraju", "tarjan" } \X { L, M }
    [] e = "shortest_paths" -> { "bellman_ford", "dijkstra" } \X { L, M }
    [] e = "all_pair_shortest_paths" -> { <<"floyd_warshall", L>>, <<"floyd_warshall", M>>, <<"johnson", L>> }
    [] e \in { "topological_sort", "topological_sort_parallel" } -> { <<"kahn", L>> }
    [] e = "max_flow" -> { "edmonds_karp", "dinic" } \X { L, M }
    [] e = "Graph" -> { "" } \X { L, M }
    [] e = "change" -> { "add_vertex", "remove_vertex" } \X { L }
    [] e \in { "Queue", "Stack" } -> { "" } \X { "array", "linked_list" }
    [] e = "PriorityQueue" -> { "" } \X { "linked_list", "binary_heap", "binomial_heap" }
    [] e = "RangeQueryStatic" -> { "" } \X { "array", "sparse_table" }
    [] e = "RangeQueryDynamic" -> { "" } \X { "array", "segment_tree" }
    [] e = "ArraySegmentTree" -> { <<"1", "">> }
    [] e = "find" -> { "kmp", "rabin_karp", "boyer_moore", "z_function" } \X { "" }
    [] e = "dfs_order" -> { "in_order", "pre_order", "post_order", "out_order" } \X { "" }
    [] e = "bfs_strategy" -> { <<"queue", "">> }
OnCpp(e) ==
  CASE e \in TwoBackends -> { <<"", "">> }
    [] e = "breadth_first_search" -> { "" } \X { L, M }
    [] e = "minimum_spanning_tree" -> { <<"prim", L>> }
    [] e = "shortest_paths" -> { <<"dijkstra", L>> }
    [] e = "Graph" -> { "" } \X { L, M }
    [] e = "Stack" -> { <<"", "array">> }
    [] e \in { "dfs_order", "bfs_strategy" } -> OnPython(e)
    [] OTHER -> {}
Backends(e) == IF OnCpp(e) # {} THEN { "PYTHON", "CPP" } ELSE { "PYTHON", "CPP", "LLVM" }
\* Stack and the graphs judge the backend per implementation
Refusals(e, a, im, be) ==
  LET on == IF be = "PYTHON" THEN OnPython(e) ELSE IF be = "CPP" THEN OnCpp(e) ELSE {}
      py == <<a, im>> \in OnPython(e)
  IN CASE <<a, im>> \in on -> { "" }
       [] be = "PYTHON" -> { "NotImplementedError" }
       [] OnCpp(e) = {} /\ py -> { "ValueError" }
       [] OTHER -> { "NotImplementedError", "ValueError" }
Algs(e) == { p[1] : p \in OnPython(e) } \cup (IF { p[1] : p \in OnPython(e) } = { "" } THEN {} ELSE { "nonesuch", "2" })
Impls(e) == { p[2] : p \in OnPython(e) } \cup (IF { p[2] : p \in OnPython(e) } = { "" } THEN {}
            ELSE IF e \in GraphEntries \cup { "change" } THEN { L, M } ELSE { "nonesuch", "2" })
Requests == UNION { { <<e, a, im, be>> : a \in Algs(e), im \in Impls(e), be \in (IF e \in { "change", "find_bridges" } THEN {"PYTHON"} ELSE Backends(e)) } : e \in Entries }
=============================================================================
