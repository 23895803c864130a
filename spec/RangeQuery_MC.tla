----------------------------- MODULE RangeQuery_MC -----------------------------
(* The sparse-table decomposition and the segment tree (repaired along the path   *)
(* of an update only) are modelled and shown to answer like the fold.             *)
EXTENDS ModelBase, RangeQuery
CONSTANTS Vals, MinLen, MaxLen, Fns, Ops
\* ---- sparse table: t[i][j] combines the 2^j items from i
RECURSIVE Pow2(_)
Pow2(j) == IF j = 0 THEN 1 ELSE 2 * Pow2(j - 1)
RECURSIVE Sparse(_, _, _, _)
Sparse(fn, s, i, j) == IF j = 0 THEN s[i + 1]
                       ELSE CombN(fn, Sparse(fn, s, i, j - 1), Sparse(fn, s, i + Pow2(j - 1), j - 1))
RECURSIVE SQ(_, _, _, _, _, _)
SQ(fn, s, lo, hi, j, acc) ==
  IF j < 0 THEN acc
  ELSE IF lo + Pow2(j) - 1 <= hi THEN SQ(fn, s, lo + Pow2(j), hi, j - 1, CombN(fn, acc, Sparse(fn, s, lo, j)))
  ELSE SQ(fn, s, lo, hi, j - 1, acc)
\* ---- segment tree: a function from the ranges of its nodes to values
RECURSIVE Nodes(_, _), SBuild(_, _, _), SUpdate(_, _, _, _, _, _), TQ(_, _, _, _, _, _)
Nodes(lo, hi) == {<<lo, hi>>} \cup (IF lo = hi THEN {} ELSE Nodes(lo, (lo + hi) \div 2) \cup Nodes((lo + hi) \div 2 + 1, hi))
SBuild(fn, s, n) == IF n[1] = n[2] THEN s[n[1] + 1]
                    ELSE LET m == (n[1] + n[2]) \div 2 IN
                         CombN(fn, SBuild(fn, s, <<n[1], m>>), SBuild(fn, s, <<m + 1, n[2]>>))
SUpdate(fn, t, lo, hi, i, v) ==
  IF lo = hi THEN [t EXCEPT ![<<lo, hi>>] = v]
  ELSE LET m == (lo + hi) \div 2
           u == IF i <= m THEN SUpdate(fn, t, lo, m, i, v) ELSE SUpdate(fn, t, m + 1, hi, i, v) IN
       [u EXCEPT ![<<lo, hi>>] = CombN(fn, u[<<lo, m>>], u[<<m + 1, hi>>])]
TQ(fn, t, lo, hi, l, r) ==
  IF r < lo \/ hi < l THEN NONE
  ELSE IF l <= lo /\ hi <= r THEN t[<<lo, hi>>]
  ELSE LET m == (lo + hi) \div 2 IN CombN(fn, TQ(fn, t, lo, m, l, r), TQ(fn, t, m + 1, hi, l, r))
Tree(fn, s) == [n \in Nodes(0, Len(s) - 1) |-> SBuild(fn, s, n)]
Arrs == UNION { [1 .. n -> Vals] : n \in MinLen .. MaxLen }
MC_Inits == { <<[fn |-> f, cells |-> s], [k |-> s, t |-> Tree(f, s)]>> : s \in Arrs, f \in Fns }
MC_Calls(c, s) ==
  (IF "update" \in Ops THEN { [op |-> "update", a |-> <<i, v>>] : i \in 0 .. Len(s.k) - 1, v \in Vals } ELSE {})
  \cup (IF "query" \in Ops THEN { [op |-> "query", a |-> <<l, r>>] : l \in 0 .. Len(s.k) - 1, r \in 0 .. Len(s.k) - 1 } ELSE {})
MC_Do(s, c) ==
  LET o == RQOut(cfg, s.k, c.op, c.a)
      t == IF c.op = "update" THEN SUpdate(cfg.fn, s.t, 0, Len(s.k) - 1, c.a[1], c.a[2]) ELSE s.t IN
  [st |-> [k |-> o.st, t |-> t], x |-> o.x, r |-> o.r]
Refines == LET n == Len(st.k) IN
  /\ st.t = Tree(cfg.fn, st.k)
  /\ \A l \in 0 .. n - 1 : \A r \in l .. n - 1 :
       LET v == FoldRange(cfg.fn, SubSeq(st.k, l + 1, r + 1)) IN
       /\ TQ(cfg.fn, st.t, 0, n - 1, l, r) = v
       /\ SQ(cfg.fn, st.k, l, r, 3, NONE) = v
=============================================================================
