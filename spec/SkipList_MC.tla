------------------------------ MODULE SkipList_MC ------------------------------
EXTENDS ModelBase, SkipList
CONSTANTS Keys, Coins
MC_Inits == { <<[z |-> 0], SLInit([z |-> 0])>> }
\* the third argument of an insertion selects the coin flips
MC_Calls(c, k) ==
  { [op |-> "insert", a |-> <<x, Len(h), s>>] : x \in Keys, s \in Coins }
  \cup { [op |-> "extract", a |-> <<x>>] : x \in Keys }
MC_Do(k, c) == CHOOSE o \in SLOuts(k, c.op, c.a) : TRUE
Grows == [][ Cardinality(st') = Cardinality(st) + (IF Last(h')[1] = "insert" THEN 1 ELSE IF last'.x = "" THEN -1 ELSE 0) ]_mvars
KeyErrorOnlyIfAbsent == [][ last'.x = "KeyError" => (st' = st /\ \A y \in st : y[1] # Last(h')[2]) ]_mvars
=============================================================================
