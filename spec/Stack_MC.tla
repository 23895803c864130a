------------------------------ MODULE Stack_MC ------------------------------
EXTENDS ModelBase, Stack
CONSTANTS Vals
MC_Inits == { <<c, StackInit(c)>> : c \in { [impl |-> "array", items |-> <<>>],
                                             [impl |-> "array", items |-> <<8, 9>>] } }
MC_Calls(c, k) == { [op |-> "push", a |-> <<v>>] : v \in Vals }
                  \cup { [op |-> "pop", a |-> <<>>], [op |-> "peek", a |-> <<>>] }
MC_Do(k, c) == StackDo(k, c.op, c.a)

\* independent characterisation of LIFO over the history: matching pushes and pops
RECURSIVE Run(_, _)
Run(hist, s) == IF hist = <<>> THEN s
                ELSE LET c == Head(hist) IN
                     Run(Tail(hist), IF c[1] = "push" THEN <<c[2]>> \o s
                                     ELSE IF c[1] = "pop" /\ s # <<>> THEN Tail(s) ELSE s)
Lifo == st.s = Reverse(Run(h, Reverse(cfg.items)))
PeekIsPop == [][ (Len(h') > 0 /\ Last(h')[1] = "peek") => (st' = st) ]_mvars
PopReturnsLastPushed ==
  [][ (Len(h) > 0 /\ Last(h)[1] = "push" /\ Last(h')[1] = "pop") => last'.r = Last(h)[2] ]_mvars
=============================================================================
