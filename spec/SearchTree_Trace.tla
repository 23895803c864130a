--------------------------- MODULE SearchTree_Trace ---------------------------
(* c.asp: the aspects of the observed trees a property is about.                  *)
EXTENDS TraceBase, SearchTree
XInit(c) == [c |-> c, m |-> << IF c.init = <<>> THEN {} ELSE {<<c.init[1], c.init[2], NONE>>} >>]

TreeBad(c, s, T) ==
  LET A(x) == x \in Rng(c.asp) IN
  FirstBad(<< <<LinksOK(T) /\ Reached(T), "the links between the nodes disagree or a node is unreachable">>,
              <<~A("map") \/ { <<T.n[z][1], T.n[z][2]>> : z \in Nds(T) } = { <<e[1], e[2]>> : e \in s }, "the tree does not hold exactly the inserted keys and data">>,
              <<~A("map") \/ Len(T.n) = Cardinality(s), "a key is held twice">>,
              <<~A("order") \/ SearchOrder(c, T), "an in-order walk is not in key order">>,
              <<~A("avl") \/ Avl(T, T.r)[2], "two subtrees differ in height by more than one">>,
              <<~A("avl") \/ Avl(T, T.r)[3], "the balance factor reported is wrong">>,
              <<~A("rb") \/ T.r = 0 \/ T.n[T.r][6] = 0, "the root is not black">>,
              <<~A("rb") \/ NoRedRed(T), "a red node has a red child">>,
              <<~A("rb") \/ Black(T, T.r)[2], "paths with different numbers of black nodes">>,
              <<~A("heap") \/ HeapOrder(T), "priorities are not in heap order">>,
              <<~A("prio") \/ { <<T.n[z][1], T.n[z][6]>> : z \in Nds(T) } = { <<e[1], e[3]>> : e \in s }, "the priorities held are not those inserted">> >>)
RECURSIVE ForestBad(_, _, _, _)
ForestBad(c, m, o, w) == IF w > Len(o) THEN ""
                         ELSE IF o[w] # <<>> /\ TreeBad(c, m[w], o[w][1]) # "" THEN TreeBad(c, m[w], o[w][1])
                         ELSE ForestBad(c, m, o, w + 1)
ObsBad(s, o) == IF s.c.asp = <<>> THEN ""
                ELSE IF Len(o) # Len(s.m) THEN "number of trees" ELSE ForestBad(s.c, s.m, o, 1)

\* answers to a sweep of queries, each judged on the map or on the observed shape
LookBad(s, op, a, r, T) ==
  LET c == s.c
      m == s.m[a[1]]
  IN CASE op = "stats" -> FirstBad(<< <<\A p \in Rng(r[1]) : p[2] = RankOf(c, m, p[1]), "the rank of a key is wrong">>,
                                      <<\A p \in Rng(r[2]) : p[2] = SelectOf(c, m, p[1]), "the key selected at a position is wrong">> >>)
       [] op = "bounds" -> FirstBad(<< <<\A p \in Rng(r) : p[2] = LowerOf(c, m, p[1]), "a lower bound is wrong">>,
                                       <<\A p \in Rng(r) : p[3] = UpperOf(c, m, p[1]), "an upper bound is wrong">> >>)
       [] op = "lcas" -> FirstBad(<< <<\A p \in Rng(r) : p[3] = LcaOf(T, p[1], p[2]), "a lowest common ancestor is wrong (algorithm 1)">>,
                                     <<\A p \in Rng(r) : p[4] = LcaOf(T, p[1], p[2]), "a lowest common ancestor is wrong (algorithm 2)">> >>)
       [] op = "travs" -> FirstBad(<< <<\A p \in Rng(r) : p[3] = KeySeq(T, Walk(T, p[1], At(T, p[2]))), "a traversal is wrong">> >>)
       [] op = "paths" -> FirstBad(<< <<\A p \in Rng(r) : LET q == Above(c, T, p[1], T.r, 0) IN p[2] = (IF q = 0 THEN NONE ELSE Ky(T, q)), "the parent a search reports is wrong">> >>)

XStep(s, e) ==
  IF e.op \in {"stats", "bounds", "lcas", "travs", "paths"}
  THEN LET ob == ObsBad(s, e.o)
           lb == IF e.x # "" THEN "raises " \o e.x ELSE IF ob # "" THEN ob
                 ELSE LookBad(s, e.op, e.a, e.r, IF s.c.asp = <<>> THEN <<>> ELSE e.o[e.a[1]][1])
       IN [st |-> s, bad |-> IF lb = "" THEN "" ELSE e.op \o ": " \o lb]
  ELSE LET o == IF e.op = "init" THEN Out(s, NONE) ELSE SOut(s, e.op, e.a)
           b == ObsBad(o.st, e.o)
           sp == IF b = "" /\ "splay" \in Rng(s.c.asp) /\ e.op = "insert" /\ e.x = "" /\ e.o[e.a[1]] # <<>>
                    /\ (LET T == e.o[e.a[1]][1] IN T.r = 0 \/ Ky(T, T.r) # e.a[2])
                 THEN "the inserted key is not at the root" ELSE b
       IN StepDet(o, e, sp)
=============================================================================
