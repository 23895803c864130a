-------------------------------- MODULE Faults --------------------------------
(* Calls that consult a function of the caller's (a comparator, a choice of pivot, a  *)
(* visitor, a fold, the comparison of items), any of whose answers may be an           *)
(* exception instead.  State: the kind of structure and what is observed of it:        *)
(*   array: its cells                tree: its keys in order, then in pre-order         *)
(*   queue: 1000 * priority + value in order of arrival     heap: the same, sorted      *)
(*   fold: the array folded          graph: the edges as 10 * from + to                 *)
(* A call is completed if the exception was to come at a consultation it does not       *)
(* reach.  Otherwise the exception comes back, and a question has changed nothing,      *)
(* a sort has at most rearranged its slice, an insertion into a tree that does not      *)
(* balance itself is as if not begun.  A change of a heap or a balancing tree may have  *)
(* been made or not (the item concerned is there or not), but no other item is lost,    *)
(* and the tree answers questions by the keys it holds.                                 *)
EXTENDS Sort, ArrayFns
InKeys(s) == SubSeq(s, 1, Len(s) \div 2)
PreKeys(s) == SubSeq(s, Len(s) \div 2 + 1, Len(s))
LeastOf(S) == IF S = {} THEN NONE ELSE Min(S)
Prio(p) == p \div 1000
BestAt(s) == { j \in Idx(s) : \A q \in Idx(s) : Prio(s[j]) <= Prio(s[q]) }

Sorted(S) == SetToSortSeq(S, <)
IsTree(t) == IsPerm(InKeys(t), PreKeys(t)) /\ InKeys(t) = Sorted(Rng(t))
Inserted(s, x) == SortSeq(Append(s, x), <)

\* the exception a call meets whoever is consulted
Refused(k, op, x, y) ==
  IF k.kind \in {"queue", "heap"} /\ op \notin {"look", "push"} /\ k.s = <<>> THEN "IndexError"
  ELSE IF op \in {"lca1", "lca2"} /\ ~({x, y} \subseteq Rng(k.s)) THEN "ValueError"
  ELSE ""
\* what is wrong with a completed call on k = [kind, s]: result r, observed afterwards t,
\* an arrangement returned p
Done(k, op, x, y, r, t, p) ==
  LET s == k.s
      n == Len(s) IN
  CASE op = "sort" -> IF r # 1 THEN "did not return the array" ELSE SortBad(s, x, y, "asc", t)
    [] op = "pop" -> IF \E j \in BestAt(s) : r = s[j] % 1000 /\ t = RemoveIdx(s, j) THEN "" ELSE "not an item of least priority"
    [] op = "insert" -> IF InKeys(t) = SetToSortSeq(Rng(InKeys(s)) \cup {x}, <) THEN "" ELSE "the keys afterwards"
    [] op \in {"put", "del"} -> IF ~IsTree(t) THEN "no search tree"
                               ELSE IF Rng(t) # (IF op = "put" THEN Rng(s) \cup {x} ELSE Rng(s) \ {x}) THEN "the keys afterwards"
                               ELSE IF op = "del" /\ r # (IF x \in Rng(s) THEN 1 ELSE NONE) THEN "wrong answer" ELSE ""
    [] op = "push" -> IF t = Inserted(s, x) THEN "" ELSE "the items afterwards"
    [] t # s -> "the structure changed"
    [] op \in {"next", "prev"} -> IF Len(p) # n THEN "not an arrangement of the array" ELSE PermBad(op, "asc", s, 0, n - 1, r, p)
    [] op = "ordered" -> IF r = B2I(IsOrdered("asc", s, 0, n - 1)) THEN "" ELSE "wrong answer"
    [] op \in {"binary", "jump"} -> SearchBad(op, s, 0, n - 1, x, r)
    [] op = "lower" -> IF r = IF k.kind = "tree" THEN LeastOf({ v \in Rng(InKeys(s)) : v >= x }) ELSE LowerBound("asc", s, 0, n, x) THEN "" ELSE "wrong answer"
    [] op = "upper" -> IF r = IF k.kind = "tree" THEN LeastOf({ v \in Rng(InKeys(s)) : v > x }) ELSE UpperBound("asc", s, 0, n, x) THEN "" ELSE "wrong answer"
    [] op = "search" -> IF r = B2I(x \in Rng(InKeys(s))) THEN "" ELSE "wrong answer"
    [] op = "rank" -> IF r = IF x \in Rng(InKeys(s)) THEN Cardinality({ v \in Rng(InKeys(s)) : v <= x }) ELSE NONE THEN "" ELSE "wrong answer"
    \* in pre-order, the first key between two is the one where their paths part
    [] op \in {"lca1", "lca2"} -> IF r = SelectSeq(PreKeys(s), LAMBDA v : Min2(x, y) <= v /\ v <= Max2(x, y))[1] THEN "" ELSE "wrong answer"
    [] op = "peek" -> IF \E j \in BestAt(s) : r = s[j] % 1000 THEN "" ELSE "not an item of least priority"
    [] op = "query" -> IF r = Min(Rng(Slice(s, x, y))) THEN "" ELSE "wrong answer"
    [] op = "visit" -> ""
    [] op = "look" -> ""
\* what is wrong with what a call leaves behind whose consultation failed
Abandoned(k, op, x, y, t) ==
  IF op = "sort" THEN
    FirstBad(<< <<Len(t) = Len(k.s), "the array changed its length">>,
                <<\A j \in Idx(k.s) : (j < x + 1 \/ j > y + 1) => t[j] = k.s[j], "a cell outside the slice changed">>,
                <<IsPerm(Slice(k.s, x, y), Slice(t, x, y)), "items were lost">> >>)
  ELSE IF op \in {"put", "del"} THEN
    FirstBad(<< <<IsTree(t), "no search tree">>,
                <<Rng(k.s) \ {x} \subseteq Rng(t), "other keys were lost">>,
                <<Rng(t) \subseteq Rng(k.s) \cup (IF op = "put" THEN {x} ELSE {}), "keys nobody put there">> >>)
  ELSE IF op = "push" /\ t = Inserted(k.s, x) THEN ""
  ELSE IF k.kind = "heap" /\ op = "pop" /\ \E j \in BestAt(k.s) : t = RemoveIdx(k.s, j) THEN ""
  ELSE IF t # k.s THEN "the structure changed" ELSE ""
=============================================================================
