------------------------------ MODULE PQueue_MC ------------------------------
EXTENDS ModelBase, PQueue
CONSTANTS Prios
PS == {-2, 1}
MC_Inits == { <<c, PQInit(c)>> : c \in { c \in { [max |-> m, mag |-> g] : m, g \in BOOLEAN } : ~(c.max /\ c.mag) } }
MC_Calls(c, k) == { [op |-> "push", a |-> <<IF Len(h) = 2 /\ ~c.mag THEN 1 ELSE Len(h) + 1, p>>] : p \in Prios }
                  \cup { [op |-> "pop", a |-> <<>>], [op |-> "peek", a |-> <<>>] }
\* the generator follows one of the allowed outcomes; the real code may follow another
MC_Do(k, c) == CHOOSE o \in PQOuts(k, c.op, c.a) : TRUE
Pushed == { <<h[j][3], h[j][2], Cardinality({ n \in 1 .. j - 1 : h[n][1] = "push" })>> : j \in { j \in Idx(h) : h[j][1] = "push" } }
Conserved == st.bag \subseteq Pushed
             /\ Cardinality(Pushed) - Cardinality(st.bag)
                <= Cardinality({ j \in Idx(h) : h[j][1] = "pop" })
PopIsExtreme == [][ (Last(h')[1] = "pop" /\ last'.x = "") =>
                     \E x \in st.bag : x[2] = last'.r /\ \A y \in st.bag : ~Better(st, y[1], x[1]) ]_mvars
=============================================================================
