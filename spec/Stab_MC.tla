------------------------------- MODULE Stab_MC -------------------------------
(* The canonical decomposition: elementary intervals are the end points and the   *)
(* gaps between them; an interval is stored at the highest nodes of a binary tree  *)
(* over the elementary intervals that it covers.  Stabbing collects along a path.  *)
EXTENDS ModelBase, Stab
CONSTANTS Points, MinN, MaxN
Ivs == { p \in Points \X Points : p[1] <= p[2] }
\* nondecreasing choices of intervals only: the order of the collection is immaterial
MC_Inits == UNION { { <<[ivs |-> s], s>> : s \in [1 .. n -> Ivs] } : n \in MinN .. MaxN }
MC_Calls(c, k) == {}
MC_Do(k, c) == Out(k, NONE)
\* elementary position of a coordinate: end point j |-> 2j, the gap above it 2j + 1
Ends(s) == { s[j][1] : j \in Idx(s) } \cup { s[j][2] : j \in Idx(s) }
Elem(s, x) == 2 * Cardinality({ e \in Ends(s) : e < x }) + (IF x \in Ends(s) THEN 1 ELSE 0)
RECURSIVE Canon(_, _, _, _), Path(_, _, _)
Canon(lo, hi, a, b) == IF a <= lo /\ hi <= b THEN {<<lo, hi>>}
                       ELSE IF b < lo \/ hi < a THEN {}
                       ELSE LET m == (lo + hi) \div 2 IN Canon(lo, m, a, b) \cup Canon(m + 1, hi, a, b)
Path(lo, hi, p) == {<<lo, hi>>} \cup (IF lo = hi THEN {} ELSE LET m == (lo + hi) \div 2 IN
                                      IF p <= m THEN Path(lo, m, p) ELSE Path(m + 1, hi, p))
Refines == LET top == 2 * Cardinality(Ends(st)) IN
  \A x \in 0 .. Max(Points) + 1 :
    Hit(st, x) = { j \in Idx(st) : Canon(0, top, Elem(st, st[j][1]), Elem(st, st[j][2])) \cap Path(0, top, Elem(st, x)) # {} }
=============================================================================
