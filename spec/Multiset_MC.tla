----------------------------- MODULE Multiset_MC -----------------------------
(* A counter next to an ordered set of the elements whose counter is positive.    *)
EXTENDS ModelBase, Multiset
CONSTANTS Elems, Ops
MC_Inits == { <<[init |-> <<>>], [s |-> {}, cnt |-> [x \in Elems |-> 0], tree |-> {}, n |-> 0]>> }
MC_Calls(c, s) == { [op |-> o, a |-> <<x>>] : o \in Ops, x \in Elems }
MC_Do(s, c) == LET o == MSOut(s.s, c.op, c.a)
                   x == c.a[1]
               IN [st |-> IF c.op = "add" THEN [s |-> o.st, cnt |-> [s.cnt EXCEPT ![x] = @ + 1], tree |-> s.tree \cup {x}, n |-> s.n + 1]
                          ELSE [s |-> o.st, cnt |-> [s.cnt EXCEPT ![x] = Max2(@ - 1, 0)],
                                tree |-> IF s.cnt[x] = 1 THEN s.tree \ {x} ELSE s.tree, n |-> IF s.cnt[x] > 0 THEN s.n - 1 ELSE s.n],
                   x |-> o.x, r |-> o.r]
Refines == st.tree = Held(st.s) /\ st.n = Total(st.s) /\ \A x \in Elems : st.cnt[x] = Mult(st.s, x)
=============================================================================
