------------------------------- MODULE Array_MC -------------------------------
EXTENDS ModelBase, Array
CONSTANTS Vals, Shapes
MC_Inits == { <<[shape |-> s], ArrInit([shape |-> s])>> : s \in Shapes }
\* indices inside the shape, one too large in one dimension, and of the wrong arity
BadIx(s) == { [ [j \in 1 .. Len(s) |-> 0] EXCEPT ![d] = s[d] ] : d \in 1 .. Len(s) }
            \cup { [j \in 1 .. Len(s) + 1 |-> 0] }
MC_Calls(c, k) ==
  LET ixs == Tuples(k.shape) \cup { b \in BadIx(k.shape) : Len(k.shape) > 1 \/ Len(b) = 1 }
  IN { [op |-> "get", a |-> <<ix>>] : ix \in ixs }
     \cup { [op |-> "set", a |-> <<ix, v>>] : ix \in ixs, v \in Vals }
     \cup { [op |-> "fill", a |-> <<v>>] : v \in Vals }
MC_Do(k, c) == ArrDo(k, c.op, c.a)
\* a write touches one cell only; a failed call touches none; reads touch none
Frame == [][ LET c == Last(h') IN
             /\ st'.shape = st.shape
             /\ (c[1] = "get" \/ last'.x # "") => st' = st
             /\ (c[1] = "set" /\ last'.x = "") =>
                  \A ix \in DOMAIN st.cell : st'.cell[ix] = IF ix = c[2] THEN c[3] ELSE st.cell[ix] ]_mvars
ReadYourWrites == [][ (Len(h) > 0 /\ Last(h)[1] = "set" /\ Last(h')[1] = "get" /\ Last(h)[2] = Last(h')[2] /\ last.x = "")
                      => last'.r = Last(h)[3] ]_mvars
S1 == { <<0>>, <<1>>, <<3>> }
SmallShapes == { <<2>>, <<2, 2>>, <<1, 3>>, <<3, 1>>, <<2, 1, 2>> }
ManyShapes == SmallShapes \cup { <<2, 3>>, <<3, 2>>, <<2, 2, 2>>, <<1, 2, 3>>, <<2, 1, 1, 2>> }
=============================================================================
