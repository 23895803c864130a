-------------------------------- MODULE Sort_MC --------------------------------
EXTENDS ModelBase, Sort
CONSTANTS Vals, MaxLen, Orders
Arrs == UNION { [1 .. n -> Vals] : n \in 0 .. MaxLen }
MC_Inits == { <<[cells |-> s], s>> : s \in Arrs }
AllCalls == { [op |-> "sort", a |-> <<o, lo, hi>>] : o \in Orders, lo \in 0 .. MaxLen - 1, hi \in 0 .. MaxLen - 1 }
MC_Calls(c, k) == { x \in AllCalls : IF Len(k) = 0 THEN x.a[2] = 0 /\ x.a[3] = 0
                                     ELSE x.a[2] < Len(k) /\ x.a[3] < Len(k) /\ x.a[3] >= x.a[2] }
MC_Do(k, c) == Out(k, NONE)
V1 == {1, 2, NONE}
V2 == {0, 1, 2, NONE}
\* the relation determines the result: exactly one rearrangement of the array satisfies it
PermsOf(s) == { [j \in Idx(s) |-> s[p[j]]] : p \in Permutations(Idx(s)) }
Determined == h # <<>> =>
  LET c == h[1]
      hi == IF Len(st) = 0 THEN -1 ELSE c[4] IN
  Cardinality({ t \in PermsOf(st) : SortBad(st, c[3], hi, c[2], t) = "" }) = 1
=============================================================================
