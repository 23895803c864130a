----------------------------- MODULE ArrayFns_MC -----------------------------
(* Enumerates inputs, and checks the definitions against more direct ones.        *)
EXTENDS ModelBase, ArrayFns
CONSTANTS Vals, MaxLen, Ords, Kind
Arrs == UNION { [1 .. n -> Vals] : n \in 0 .. MaxLen }
MC_Inits == { <<[cells |-> s], s>> : s \in Arrs }
Calls == CASE Kind = "search" -> { [op |-> "search", a |-> <<o, lo, hi, v>>] : o \in Ords, lo \in 0 .. MaxLen, hi \in -1 .. MaxLen - 1, v \in 0 .. 4 }
           [] Kind = "perm" -> { [op |-> "perm", a |-> <<o, lo, hi, 0>>] : o \in Ords, lo \in 0 .. MaxLen, hi \in -1 .. MaxLen - 1 }
           [] Kind = "lis" -> { [op |-> "lis", a |-> <<"asc", 0, 0, 0>>] }
MC_Calls(c, k) == { x \in Calls : Kind = "lis" \/ (x.a[2] <= Len(k) /\ x.a[3] < Len(k) /\ x.a[3] >= x.a[2] - 1) }
MC_Do(k, c) == Out(k, NONE)
\* bounds and search results split an ordered slice; the search relation can always be met
BoundsOK == (h # <<>> /\ Kind = "search") =>
  LET o == h[1][2]  lo == h[1][3]  hi == h[1][4]  v == h[1][5]
      l == LowerBound(o, st, lo, hi + 1, v)  u == UpperBound(o, st, lo, hi + 1, v) IN
  OrderedSeq(o, Slice(st, lo, hi)) =>
    /\ IsOrdered(o, st, lo, hi)
    /\ l <= u /\ Hits(st, lo, hi, v) = l .. u - 1
    /\ \A p \in lo .. l - 1 : Prec(o, st[p + 1], v)
    /\ \A p \in u .. hi : Prec(o, v, st[p + 1])
PermsOf(s) == { [j \in Idx(s) |-> s[p[j]]] : p \in Permutations(Idx(s)) }
\* the step characterisation is exactly "least rearrangement above"
PermOK == (h # <<>> /\ Kind = "perm") =>
  LET o == h[1][2]
      si == Slice(st, h[1][3], h[1][4])
      above == { t \in PermsOf(si) : LexLess(o, si, t) } IN
  /\ (above = {}) = SortedIn(RevOrd(o), si)
  /\ { t \in PermsOf(si) : IsNext(o, si, t) } = { t \in above : \A w \in above : w = t \/ LexLess(o, t, w) }
\* the tables agree with the maximum over all subsequences
SubOf(s, S) == LET q == SetToSortSeq(S, <) IN [j \in Idx(q) |-> s[q[j]]]
Inc(s) == \A j \in 1 .. Len(s) - 1 : s[j] < s[j + 1]
LisOK == (Kind = "lis") =>
  /\ LisLen(st) = Max({ Cardinality(S) : S \in { S \in SUBSET Idx(st) : Inc(SubOf(st, S)) } })
  /\ LET t == SubSeq(Reverse(st), 1, Min2(3, Len(st))) IN
       LcsLen(st, t) = Max({ Cardinality(S) : S \in { S \in SUBSET Idx(t) : IsSubseq(SubOf(t, S), st) } })
V012 == {0, 1, 2}
V123 == {1, 2, 3}
V0123 == {0, 1, 2, 3}
=============================================================================
