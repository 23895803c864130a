------------------------------- MODULE Graph_MC -------------------------------
(* The representation: adjacency lists in the vertices (adj), and a separate map  *)
(* of weights (wt) keyed by the pair of names that must be kept in step with them. *)
EXTENDS ModelBase, Graph
CONSTANTS Names, Start, Weights, Ops, Queries, Static_
WSet == {NONE, 5, 7}
W1Set == {NONE, 5}
AbsE(i) == { <<p[1], p[2], IF p \in DOMAIN i.wt THEN i.wt[p] ELSE NONE>> : p \in i.adj }
I0 == [v |-> Start, adj |-> {}, wt |-> <<>>]
Restr(f, S) == [p \in S |-> f[p]]
IDo(i, c) ==
  LET a == c.a IN
  CASE c.op = "addv" -> [i EXCEPT !.v = @ \cup {a[1]}]
    [] c.op = "addvl" -> IF a[1] \in i.v THEN i
         ELSE [i EXCEPT !.v = @ \cup {a[1]}, !.adj = @ \cup { <<a[1], w>> : w \in Rng(Tail(a)) }]
    [] c.op = "remv" -> IF a[1] \notin i.v THEN i
         ELSE LET keep(p) == p[1] # a[1] /\ p[2] # a[1]
              IN [v |-> i.v \ {a[1]}, adj |-> { p \in i.adj : keep(p) },
                  wt |-> Restr(i.wt, { p \in DOMAIN i.wt : keep(p) })]
    [] c.op = "adde" -> IF {a[1], a[2]} \subseteq i.v
         THEN [i EXCEPT !.adj = @ \cup {<<a[1], a[2]>>},
                        !.wt = IF a[3] = NONE THEN @ ELSE (<<a[1], a[2]>> :> a[3]) @@ @]
         ELSE i
    [] c.op = "reme" -> [i EXCEPT !.adj = @ \ {<<a[1], a[2]>>},
                                  !.wt = Restr(@, DOMAIN @ \ {<<a[1], a[2]>>})]
    [] OTHER -> i
MC_Inits == { <<[n |-> SetToSortSeq(Start, <), m |-> IF Static_ THEN 1 ELSE 0], [k |-> GInit(Start, {}), i |-> I0]>> }
MC_Calls(c, s) ==
  (IF Static_ THEN {} ELSE { [op |-> o, a |-> <<u>>] : o \in Ops \cap {"addv", "remv"}, u \in Names })
  \cup (IF Static_ THEN {} ELSE { [op |-> o, a |-> <<u>> \o SetToSortSeq(ws, <)] :
            o \in Ops \cap {"addvl"}, u \in Names, ws \in (SUBSET s.k.v) \ {{}} })
  \cup { [op |-> o, a |-> <<u, w, x>>] : o \in Ops \cap {"adde"}, u \in Names, w \in Names, x \in Weights }
  \cup { [op |-> o, a |-> <<u, w>>] : o \in Ops \cap {"reme"}, u \in Names, w \in Names }
  \cup { [op |-> "query", a |-> <<q>>] : q \in Queries }
MC_Do(s, c) == LET o == GOut(s.k, Static_, c.op, c.a) IN [st |-> [k |-> o.st, i |-> IDo(s.i, c)], x |-> "", r |-> NONE]
Refines == st.i.v = st.k.v /\ AbsE(st.i) = st.k.e /\ WellFormed(st.k)
\* no weight outlives its edge: otherwise it would come back with the next edge of those names
NoStale == \A p \in DOMAIN st.i.wt : p \in st.i.adj
\* one history per (state, next call)
LastOp == IF h = <<>> THEN <<>> ELSE h[Len(h)]
CallView == <<cfg, st, LastOp, Len(h)>>
=============================================================================
