---------------------------- MODULE LinkedList_MC ----------------------------
EXTENDS ModelBase, LinkedList
CONSTANTS Dbl
MC_Inits == { <<c, LLInit(c)>> : c \in { [dbl |-> Dbl, ring |-> FALSE] } }
N == Len(h) + 1             \* every inserted key is new
MC_Calls(c, k) ==
  LET n == Len(k.s)
      near(lo, hi) == { j \in -4 .. 4 : j >= lo /\ j <= hi } IN
  { [op |-> "append", a |-> <<N, N + 10>>], [op |-> "appendleft", a |-> <<N, N + 10>>] }
  \cup { [op |-> "insert_at", a |-> <<j, N, NONE>>] : j \in near(-n - 1, n + 1) }
  \cup { [op |-> "insert_after", a |-> <<j, N, 0>>] : j \in near(0, n - 1) }
  \cup (IF Dbl THEN { [op |-> "insert_before", a |-> <<j, N, 0>>] : j \in near(0, n - 1) } ELSE {})
  \cup { [op |-> "extract", a |-> <<j>>] : j \in near(-n - 1, n) }
MC_Do(k, c) == LLDo(k, c.op, c.a)
\* independent characterisation
SizeStep == [][ Len(st'.s) - Len(st.s) = IF last'.x # "" THEN 0 ELSE IF Last(h')[1] = "extract" THEN -1 ELSE 1 ]_mvars
Kept == [][ LET new == { j \in Idx(st'.s) : st'.s[j] \notin Rng(st.s) }
                gone == { j \in Idx(st.s) : st.s[j] \notin Rng(st'.s) } IN
            /\ Cardinality(new) <= 1 /\ Cardinality(gone) <= 1
            /\ SelectSeq(st'.s, LAMBDA x : x \in Rng(st.s)) = SelectSeq(st.s, LAMBDA x : x \in Rng(st'.s))
            /\ (Last(h')[1] = "extract" /\ last'.x = "") => \A j \in gone : last'.r = st.s[j] ]_mvars
NegIndex == [][ (Last(h')[1] = "extract" /\ last'.x = "") => st.s[(Last(h')[2] % Len(st.s)) + 1] = last'.r ]_mvars
=============================================================================
