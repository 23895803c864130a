-------------------------------- MODULE BinHeap --------------------------------
(* Several binomial heaps.  Abstract state: the set of <<key, datum>> pairs of    *)
(* each (data are distinct).  A heap that was merged into another is consumed.    *)
EXTENDS Base
BHInit(c) == [g \in 1 .. c.n |-> {}]
Smallest(bag) == { p \in bag : \A q \in bag : p[1] <= q[1] }
BHOuts(k, op, a) ==
  LET g == a[1] IN
  CASE op = "init" -> { Out(k, NONE) }
    [] op = "insert" -> { Out([k EXCEPT ![g] = @ \cup { <<a[2], a[3]>> }], NONE) }
    [] op = "merge" -> { Out([k EXCEPT ![g] = @ \cup k[a[2]], ![a[2]] = {}], NONE) }
    [] op = "min" -> IF k[g] = {} THEN { Fail(k, "IndexError") } ELSE { Out(k, p) : p \in Smallest(k[g]) }
    [] op = "delmin" -> IF k[g] = {} THEN { Fail(k, "IndexError") }
                        ELSE { Out([k EXCEPT ![g] = @ \ {p}], NONE) : p \in Smallest(k[g]) }
    \* a = <<heap, datum, new key>>
    [] op = "decrease" -> { LET p == CHOOSE p \in k[g] : p[2] = a[2] IN
                            IF p[1] <= a[3] THEN Fail(k, "ValueError")
                            ELSE Out([k EXCEPT ![g] = (@ \ {p}) \cup { <<a[3], a[2]>> }], NONE) }
    [] op = "delete" -> { Out([k EXCEPT ![g] = { p \in @ : p[2] # a[2] }], NONE) }
\* observation per heap: [empty, trees], a tree is <<order, node>>, a node <<key, datum, children>>
RECURSIVE Pairs(_), Binomial(_, _), Ordered(_)
Pairs(nd) == << <<nd[1], nd[2]>> >> \o FlattenSeq([j \in Idx(nd[3]) |-> Pairs(nd[3][j])])
Binomial(nd, ord) == /\ Len(nd[3]) = ord
                     /\ { Len(nd[3][j][3]) : j \in Idx(nd[3]) } = 0 .. ord - 1
                     /\ \A j \in Idx(nd[3]) : Binomial(nd[3][j], Len(nd[3][j][3]))
Ordered(nd) == \A j \in Idx(nd[3]) : nd[1] <= nd[3][j][1] /\ Ordered(nd[3][j])
HeapBad(bag, o) ==
  LET ps == FlattenSeq([j \in Idx(o.trees) |-> Pairs(o.trees[j][2])]) IN
  FirstBad(<< <<Len(ps) = Cardinality(bag) /\ Rng(ps) = bag, "a heap does not hold exactly the expected pairs">>,
              <<\A j \in Idx(o.trees) : Binomial(o.trees[j][2], o.trees[j][1]), "a tree is not a binomial tree of its order">>,
              <<\A j \in Idx(o.trees) : Ordered(o.trees[j][2]), "a tree is not heap-ordered">>,
              <<\A j, m \in Idx(o.trees) : o.trees[j][1] = o.trees[m][1] => j = m, "two trees have the same order">>,
              <<o.links = 1, "parent links disagree with child links">>,
              <<o.empty = B2I(bag = {}), "the emptiness flag is wrong">> >>)
StateBad(k, o) == IF \A g \in Idx(o) : HeapBad(k[g], o[g]) = "" THEN ""
                  ELSE HeapBad(k[CHOOSE g \in Idx(o) : HeapBad(k[g], o[g]) # ""], o[CHOOSE g \in Idx(o) : HeapBad(k[g], o[g]) # ""])
=============================================================================
