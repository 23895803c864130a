--------------------------------- MODULE Trie ---------------------------------
(* A set of strings; strings are sequences of letters.                            *)
EXTENDS Base
IsPre(p, s) == Len(p) <= Len(s) /\ SubSeq(s, 1, Len(p)) = p
With(k, p) == { s \in k : IsPre(p, s) }
\* result of delete: 1 if it was there, otherwise none
TOut(k, op, a) ==
  CASE op = "init" -> Out(k, NONE)
    [] op = "insert" -> Out(k \cup {a[1]}, NONE)
    [] op = "delete" -> Out(k \ {a[1]}, IF a[1] \in k THEN 1 ELSE NONE)
    [] op = "inserted" -> Out(k, B2I(a[1] \in k))
    [] op = "present" -> Out(k, B2I(a[1] = <<>> \/ With(k, a[1]) # {}))
=============================================================================
