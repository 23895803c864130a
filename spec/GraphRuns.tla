------------------------------- MODULE GraphRuns -------------------------------
(* The algorithms as state machines over all small graphs: every order in which ties, *)
(* neighbours or parallel workers may be served.  Whatever the order, a run ends, and  *)
(* ends with the answer GraphAlg defines.                                              *)
EXTENDS GraphAlg
CONSTANTS Alg, N, Weights, Und
WOne == {1}
W12 == {1, 2}
W02 == {0, 1, 2}
WNeg == {-1, 1, 2}
V == 1 .. N
NoW == NONE
EdgesOf(f) == { <<p[1], p[2], f[p]>> : p \in { q \in DOMAIN f : f[q] # NoW } }
DirPairs == { p \in V \X V : p[1] # p[2] }
UndPairs == { p \in V \X V : p[1] < p[2] }
Graphs == IF Und THEN { F \in { Sym(EdgesOf(f)) : f \in [UndPairs -> Weights \cup {NoW}] } : Alg # "prim" \/ Connected(N, F) }
          ELSE { F \in { EdgesOf(f) : f \in [DirPairs -> Weights \cup {NoW}] } : Alg # "floyd" \/ ~NegCycle(N, F) }
VARIABLES E, q
vars == <<E, q>>
S == 1
T == 2
Start == CASE Alg = "walk" -> [seen |-> {S}, now |-> {S}, next |-> {}, stop |-> FALSE]
           [] Alg = "kruskal" -> [t |-> {}, left |-> E]
           [] Alg = "prim" -> [t |-> {}, in |-> {S}]
           [] Alg = "dijkstra" -> [d |-> [v \in V |-> IF v = S THEN 0 ELSE INF], done |-> {},
                                   pq |-> { <<v, IF v = S THEN 0 ELSE INF>> : v \in V }]
           [] Alg = "kahn" -> [left |-> E, on |-> V, src |-> {}, jobs |-> {}, out |-> <<>>, end |-> FALSE]
           [] Alg = "flow" -> [f |-> [p \in DirPairs |-> 0]]
           [] Alg = "floyd" -> [d |-> [u \in V |-> [v \in V |-> IF u = v THEN 0 ELSE IF HasE(E, u, v) THEN WOf(E, u, v) ELSE INF]], left |-> V]
Init == E \in Graphs /\ q = Start

\* any vertex of the current layer may be served next, by any worker; a false result ends it all
Walk == \/ \E u \in q.now : \E w \in Succ(E, u) \ q.seen : q' = [q EXCEPT !.seen = @ \cup {w}, !.next = @ \cup {w}]
        \/ \E u \in q.now : Succ(E, u) \subseteq q.seen /\ q' = [q EXCEPT !.now = @ \ {u}]
        \/ q.now = {} /\ q.next # {} /\ q' = [q EXCEPT !.now = q.next, !.next = {}]
Lightest(X) == { d \in X : \A c \in X : d[3] <= c[3] }
Both(d) == {d, <<d[2], d[1], d[3]>>}
Kruskal == \E d \in Lightest(q.left) :
             q' = [t |-> IF d[2] \in Reach(q.t, d[1]) THEN q.t ELSE q.t \cup Both(d), left |-> q.left \ Both(d)]
Prim == \E d \in Lightest({ c \in E : c[1] \in q.in /\ c[2] \notin q.in }) :
             q' = [t |-> q.t \cup Both(d), in |-> q.in \cup {d[2]}]
\* entries are never removed from the queue when a vertex improves: stale ones are skipped
Dijkstra == \E x \in q.pq : /\ \A y \in q.pq : x[2] <= y[2]
   /\ IF x[1] \in q.done THEN q' = [q EXCEPT !.pq = @ \ {x}]
      ELSE LET better == { d \in E : d[1] = x[1] /\ d[2] \notin q.done /\ Plus(q.d[x[1]], d[3]) < q.d[d[2]] }
               nd == [v \in V |-> MinOf({q.d[v]} \cup { q.d[x[1]] + d[3] : d \in { c \in better : c[2] = v } })]
           IN q' = [d |-> nd, done |-> q.done \cup {x[1]}, pq |-> (q.pq \ {x}) \cup { <<d[2], nd[d[2]]>> : d \in better }]
\* the coordinator collects the sources and hands each to a worker; workers remove edges one by one
Sources == { v \in q.on : \A d \in q.left : d[2] # v }
Kahn == \/ q.src = {} /\ ~q.end /\ Sources = {} /\ q' = [q EXCEPT !.end = TRUE]
        \/ q.src = {} /\ Sources # {} /\ \E L \in { l \in [1 .. Cardinality(Sources) -> Sources] : Rng(l) = Sources } :
             q' = [q EXCEPT !.src = Sources, !.jobs = Sources, !.out = @ \o L]
        \/ \E u \in q.jobs : \E d \in q.left : d[1] = u /\ q' = [q EXCEPT !.left = @ \ {d}]
        \/ \E u \in q.jobs : (\A d \in q.left : d[1] # u) /\ q' = [q EXCEPT !.jobs = @ \ {u}]
        \/ q.src # {} /\ q.jobs = {} /\ q' = [q EXCEPT !.on = @ \ q.src, !.src = {}]
\* push along any path with residual capacity, backwards over earlier flow included
Cap(u, w) == (IF HasE(E, u, w) THEN WOf(E, u, w) ELSE 0) - q.f[<<u, w>>]
RECURSIVE Augs(_, _)
Augs(u, seen) == IF u = T THEN { <<T>> }
                 ELSE UNION { { <<u>> \o p : p \in Augs(w, seen \cup {w}) } : w \in { x \in V \ seen : x # u /\ Cap(u, x) > 0 } }
Flow == \E p \in Augs(S, {S}) :
          LET c == MinOf({ Cap(p[j], p[j + 1]) : j \in 1 .. Len(p) - 1 })
              fwd == { <<p[j], p[j + 1]>> : j \in 1 .. Len(p) - 1 }
          IN q' = [f |-> [x \in DirPairs |-> q.f[x] + (IF x \in fwd THEN c ELSE IF <<x[2], x[1]>> \in fwd THEN -c ELSE 0)]]
Value == FoldSet(LAMBDA v, a : a + q.f[<<S, v>>], 0, V \ {S})
Floyd == \E k \in q.left : q' = [d |-> [u \in V |-> [v \in V |-> Min2(q.d[u][v], Plus(q.d[u][k], q.d[k][v]))]], left |-> q.left \ {k}]

Step == CASE Alg = "walk" -> Walk [] Alg = "kruskal" -> Kruskal [] Alg = "prim" -> Prim [] Alg = "dijkstra" -> Dijkstra
          [] Alg = "kahn" -> Kahn [] Alg = "flow" -> Flow [] Alg = "floyd" -> Floyd
Next == Step /\ UNCHANGED E
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Done == CASE Alg = "walk" -> q.now = {} /\ q.next = {}
          [] Alg = "kruskal" -> q.left = {}
          [] Alg = "prim" -> \A d \in E : d[1] \in q.in => d[2] \in q.in
          [] Alg = "dijkstra" -> q.pq = {}
          [] Alg = "kahn" -> q.end
          [] Alg = "flow" -> Augs(S, {S}) = {}
          [] Alg = "floyd" -> q.left = {}
Right == CASE Alg = "walk" -> q.seen = Reach(E, S)
           [] Alg \in {"kruskal", "prim"} -> IsSpanning(N, E, q.t) /\ IsMinimal(E, q.t)
           [] Alg = "dijkstra" -> q.d = Dist(N, E, S)
           [] Alg = "kahn" -> IF Cyclic(N, E) THEN Len(q.out) < N ELSE IsTopo(N, E, q.out)
           [] Alg = "flow" -> Value = MinCut(N, E, S, T)
           [] Alg = "floyd" -> \A u \in V : q.d[u] = Dist(N, E, u)
EndsRight == Done => Right
Halts == <>Done
Safe == CASE Alg = "walk" -> q.seen \subseteq Reach(E, S)
          [] Alg \in {"kruskal", "prim"} -> q.t \subseteq E /\ Sym(q.t) = q.t
          [] Alg = "dijkstra" -> \A v \in q.done : q.d[v] = Dist(N, E, S)[v]
          [] Alg = "flow" -> \A p \in DirPairs : Cap(p[1], p[2]) >= 0 /\ q.f[p] = -q.f[<<p[2], p[1]>>]
          [] OTHER -> TRUE
=============================================================================
