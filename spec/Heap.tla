--------------------------------- MODULE Heap ---------------------------------
(* d-ary heap.  Abstract state: the set of <<key, datum>> pairs held (data are   *)
(* distinct).  The concrete layout (the array) is an observation every state     *)
(* must be able to explain: a heap-ordered arrangement of the set.               *)
EXTENDS Base
HInit(c) == [max |-> c.max, d |-> c.d, bag |-> Rng(c.items)]
Before(k, x, y) == IF k.max THEN x > y ELSE x < y
Tops(k) == { p \in k.bag : \A q \in k.bag : ~Before(k, q[1], p[1]) }
HOuts(k, op, a) ==
  CASE op = "init" -> { Out(k, NONE) }
    [] op = "insert" -> { Out([k EXCEPT !.bag = @ \cup { <<a[1], a[2]>> }], NONE) }
    [] op = "extract" -> IF k.bag = {} THEN { Fail(k, "IndexError") }
                         ELSE { Out([k EXCEPT !.bag = @ \ {p}], p) : p \in Tops(k) }
\* observation: lay - the pairs in array order, kids - the children the printed form
\* claims for each position (0-based), empty - the emptiness flag
Children(d, n, j) == { m \in 0 .. n - 1 : m # 0 /\ (m - 1) \div d = j }
LayoutBad(k, o) ==
  LET n == Len(o.lay) IN
  FirstBad(<< <<Rng(o.lay) = k.bag /\ n = Cardinality(k.bag), "the heap does not hold exactly the expected pairs">>,
              <<\A j \in 1 .. n - 1 : ~Before(k, o.lay[j + 1][1], o.lay[((j - 1) \div k.d) + 1][1]), "a node precedes its parent">>,
              <<o.empty = B2I(k.bag = {}), "the emptiness flag is wrong">>,
              <<Len(o.kids) = n /\ \A j \in Idx(o.kids) : Rng(o.kids[j]) = Children(k.d, n, j - 1)
                  /\ Len(o.kids[j]) = Cardinality(Children(k.d, n, j - 1)), "the printed heap shows wrong children">> >>)
=============================================================================
