------------------------------- MODULE Print_MC -------------------------------
(* Contents reached by short histories, each with a printed form that denotes     *)
(* them, and with forms that do not.                                              *)
EXTENDS ModelBase, Print
CONSTANTS MKeys, MaxLen, PKinds
Vals == {1, 2, 3}
Arrays(n) == UNION { [1 .. m -> Vals] : m \in 1 .. n }
Ivs == { iv \in (0 .. 3) \X (0 .. 3) : iv[1] <= iv[2] }
MC_Inits == { p \in
  { <<[k |-> "cells", a |-> [j \in 1 .. n |-> NONE]], 0>> : n \in 1 .. 3 } \cup
  { <<[k |-> kk, a |-> a], 0>> : kk \in {"items", "nodes"}, a \in { <<>>, <<7, 8, 9>> } } \cup
  { <<[k |-> "tree", a |-> <<>>], 0>>, <<[k |-> "mary", a |-> <<1, 2>>], 0>> } \cup
  { <<[k |-> "heap", a |-> <<>>, f |-> f], 0>> : f \in {"min", "max"} } \cup
  { <<[k |-> kk, a |-> a, f |-> f], 0>> : kk \in {"sparse", "segtree"}, a \in Arrays(MaxLen), f \in {"sum", "min"} } \cup
  { <<[k |-> "stab", a |-> a], 0>> : a \in UNION { [1 .. m -> Ivs] : m \in 1 .. 2 } } : p[1].k \in PKinds }
MC_Real == { <<p[1], PInit(p[1])>> : p \in MC_Inits }
Fresh == 10 * (Len(h) + 1)
MC_Calls(c, s) ==
  CASE c.k = "cells" -> { [op |-> "set", a |-> <<j - 1, Fresh>>] : j \in Idx(s) } \cup { [op |-> "fill", a |-> <<Fresh>>] }
    [] c.k \in {"items", "nodes"} -> { [op |-> o, a |-> <<Fresh>>] : o \in {"put", "putleft"} } \cup { [op |-> o, a |-> <<>>] : o \in {"take", "takeleft"} }
    [] c.k = "tree" -> { [op |-> "insert", a |-> <<x, Fresh>>] : x \in MKeys } \cup { [op |-> "delete", a |-> <<x>>] : x \in MKeys }
    [] c.k = "heap" -> { [op |-> "insert", a |-> <<x, Fresh>>] : x \in MKeys \ { e[1] : e \in s } } \cup { [op |-> "extract", a |-> <<>>] }
    [] c.k = "mary" -> { [op |-> "put", a |-> <<Fresh>>] }
    [] c.k = "segtree" -> { [op |-> "build", a |-> <<>>] } \cup { [op |-> "update", a |-> <<j - 1, 5>>] : j \in Idx(s.a) }
    [] OTHER -> { [op |-> "look", a |-> <<>>] }
MC_Do(s, c) == PDo(cfg, s, c.op, c.a)

(* a printed form of the contents *)
Chain(s) == LET w == Sorted(s) IN [j \in Idx(w) |-> <<NONE, w[j][1], w[j][2], IF j = Len(w) THEN NONE ELSE j>>]
Heap(s) == LET w == Sorted(s)  n == Len(w)     \* the last key on top, the others to its left, last to first
           IN [j \in Idx(w) |-> <<IF j = n THEN NONE ELSE j, w[n + 1 - j][1], w[n + 1 - j][2], NONE>>]
Line(s) == LET w == Sorted(s)  n == Len(w)     \* a heap in which everyone has one child
           IN [j \in Idx(w) |-> LET e == w[IF cfg.f = "min" THEN j ELSE n + 1 - j]
                                IN <<e[1], e[2], IF j = n THEN <<>> ELSE <<j>>>>]
Form == CASE cfg.k \in {"cells", "items"} -> st
          [] cfg.k = "nodes" -> [j \in Idx(st) |-> <<st[j], NONE>>]
          [] cfg.k = "tree" -> IF st = {} THEN <<<<NONE, NONE, NONE, NONE>>>> ELSE Chain(st)
          [] cfg.k = "heap" -> Line(st)
          [] cfg.k = "mary" -> <<st>>
          [] cfg.k = "sparse" -> [i \in Idx(st) |-> SparseRow(cfg.f, st, i)]
          [] cfg.k = "segtree" -> IF st.built THEN SegPrint(cfg.f, st.a, 0, Len(st.a) - 1) ELSE <<<<>>>>
          [] cfg.k = "stab" -> <<<<NONE, <<1, -1, 9, 1>>, <<>>, 1>>>> \o
                               [j \in Idx(st) |-> <<NONE, <<1, st[j][1], st[j][2], 1>>, <<<<NONE, <<1, st[j][1], st[j][2], 1>>, NONE, NONE>>>>,
                                                    IF j = Len(st) THEN NONE ELSE j + 1>>]
\* two intervals in a chain only denote both where the first covers the second
Chained == Len(st) = 1 \/ (st[1][1] <= st[2][1] /\ st[2][2] <= st[1][2])
Accepts == /\ (cfg.k # "stab" \/ Chained) => Denotes(cfg, st, Form)
           /\ (cfg.k = "tree" /\ st # {}) => TreeOK(st, Heap(st))
           /\ (cfg.k = "stab" /\ ~Chained) => ~Denotes(cfg, st, Form)
\* leaving a part out, or naming one twice, is noticed
Rejects == (Len(Form) > 1 /\ cfg.k # "stab") =>
             /\ ~Denotes(cfg, st, Front(Form))
             /\ (Form[1] # Form[2] => ~Denotes(cfg, st, [Form EXCEPT ![1] = Form[2]]))
             /\ cfg.k = "tree" => ~TreeOK(st, [Chain(st) EXCEPT ![1][4] = NONE])
=============================================================================
