-------------------------------- MODULE BIT_MC --------------------------------
(* Fenwick's tree: cell j holds the sum of the Low(j) items ending at item j;    *)
(* updates add the difference along j, j + Low(j), ...                            *)
EXTENDS ModelBase, BIT
CONSTANTS Vals, MinLen, MaxLen
RECURSIVE Low(_)
Low(j) == IF j % 2 = 1 THEN 1 ELSE 2 * Low(j \div 2)
RECURSIVE Add(_, _, _), Pre(_, _)
Add(t, j, d) == IF j > Len(t) THEN t ELSE Add([t EXCEPT ![j] = @ + d], j + Low(j), d)
Pre(t, j) == IF j = 0 THEN 0 ELSE t[j] + Pre(t, j - Low(j))
RECURSIVE Fill(_, _, _)
Fill(t, s, j) == IF j > Len(s) THEN t ELSE Fill(Add(t, j, s[j]), s, j + 1)
Fen(s) == Fill([j \in Idx(s) |-> 0], s, 1)
VNeg == {-1, 0, 2}
Arrs == UNION { [1 .. n -> Vals] : n \in MinLen .. MaxLen }
MC_Inits == { <<[cells |-> s], [k |-> s, t |-> Fen(s)]>> : s \in Arrs }
MC_Calls(c, s) == { [op |-> "update", a |-> <<i, v>>] : i \in 0 .. Len(s.k) - 1, v \in Vals }
MC_Do(s, c) == LET o == BOut(s.k, c.op, c.a) IN
  [st |-> [k |-> o.st, t |-> Add(s.t, c.a[1] + 1, c.a[2] - s.k[c.a[1] + 1])], x |-> o.x, r |-> o.r]
Refines == /\ \A j \in Idx(st.k) : st.t[j] = SumSeq(SubSeq(st.k, j - Low(j) + 1, j))
           /\ \A j \in 0 .. Len(st.k) : Pre(st.t, j) = SumSeq(SubSeq(st.k, 1, j))
=============================================================================
