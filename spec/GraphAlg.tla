------------------------------ MODULE GraphAlg ------------------------------
(* What the graph algorithms must answer.  A graph: vertices 1..n, edges a set   *)
(* of <<source, target, weight>>, at most one per ordered pair.                   *)
EXTENDS Base
INF == 1000000000

Succ(E, u) == { d[2] : d \in { c \in E : c[1] = u } }
HasE(E, u, w) == \E d \in E : d[1] = u /\ d[2] = w
WOf(E, u, w) == (CHOOSE d \in E : d[1] = u /\ d[2] = w)[3]
Sym(E) == E \cup { <<d[2], d[1], d[3]>> : d \in E }

RECURSIVE Closure(_, _, _)
Closure(E, seen, new) == IF new = {} THEN seen
                         ELSE LET nx == UNION { Succ(E, u) : u \in new } \ seen IN Closure(E, seen \cup nx, nx)
Reach(E, s) == Closure(E, {s}, {s})
\* can u reach w by at least one edge?
Reach1(E, u, w) == \E x \in Succ(E, u) : w \in Reach(E, x)

\* ---- traversal: the number of edges on a shortest path
RECURSIVE Layers(_, _, _)
Layers(E, seen, last) == IF last = {} THEN <<>>
                         ELSE LET nx == UNION { Succ(E, u) : u \in last } \ seen IN <<last>> \o Layers(E, seen \cup nx, nx)
HopOf(L, u) == IF \E j \in DOMAIN L : u \in L[j] THEN CHOOSE j \in DOMAIN L : u \in L[j] ELSE INF

\* ---- least path weights from s: after round j, over all paths of at most j edges
Plus(a, b) == IF a = INF \/ b = INF THEN INF ELSE a + b
MinOf(S) == CHOOSE x \in S : \A y \in S : x <= y
\* (TLCEval: functions are otherwise evaluated anew at every application)
Relax(n, E, d) == TLCEval([v \in 1 .. n |-> MinOf({d[v]} \cup { Plus(d[c[1]], c[3]) : c \in { b \in E : b[2] = v } })])
RECURSIVE Rounds(_, _, _, _)
Rounds(n, E, d, j) == IF j = 0 THEN d ELSE Rounds(n, E, Relax(n, E, d), j - 1)
Dist(n, E, s) == Rounds(n, E, TLCEval([v \in 1 .. n |-> IF v = s THEN 0 ELSE INF]), n - 1)
NegCycleFrom(n, E, s) == LET d == Dist(n, E, s) IN Relax(n, E, d) # d
NegCycle(n, E) == \E s \in 1 .. n : NegCycleFrom(n, E, s)

\* following the predecessors p from v spells a path from s of weight d[v]
RECURSIVE Spells(_, _, _, _, _, _)
Spells(E, p, s, v, left, fuel) ==
  IF v = s THEN left = 0
  ELSE /\ fuel > 0
       /\ p[v] \in DOMAIN p
       /\ HasE(E, p[v], v)
       /\ Spells(E, p, s, p[v], left - WOf(E, p[v], v), fuel - 1)

\* ---- undirected graphs (E symmetric)
Connected(n, E) == n > 0 /\ Reach(E, 1) = 1 .. n
Comps(n, E) == { Reach(E, v) : v \in 1 .. n }
\* T (symmetric) connects the vertices C as E does, and has no cycle: one spanning tree per component
IsForestOn(C, E, T) == /\ T \subseteq E
                       /\ Sym(T) = T
                       /\ \A v \in C : Reach(T, v) = Reach(E, v)
                       /\ Cardinality(T) = 2 * (Cardinality(C) - Cardinality({ Reach(E, v) : v \in C }))
IsSpanning(n, E, T) == IsForestOn(1 .. n, E, T)
\* ... of least weight: no edge is lighter than the tree path it would replace
IsMinimal(E, T) == \A d \in E : d[2] \in Reach({ c \in T : c[3] <= d[3] }, d[1])
WeightOf(T) == FoldSet(LAMBDA d, a : d[3] + a, 0, T)
\* the bridges, as pairs of ends
Without(E, u, w) == { d \in E : {d[1], d[2]} # {u, w} }
Bridges(n, E) == { d \in E : d[1] < d[2] /\ d[2] \notin Reach(Without(E, d[1], d[2]), d[1]) }

\* ---- directed graphs
SCCs(n, E) == { { w \in Reach(E, v) : v \in Reach(E, w) } : v \in 1 .. n }
Cyclic(n, E) == \E v \in 1 .. n : Reach1(E, v, v)
IsTopo(n, E, L) == /\ Len(L) = n
                   /\ Rng(L) = 1 .. n
                   /\ \A d \in E : (CHOOSE j \in Idx(L) : L[j] = d[1]) < (CHOOSE j \in Idx(L) : L[j] = d[2])
CutOf(E, A) == FoldSet(LAMBDA d, a : d[3] + a, 0, { d \in E : d[1] \in A /\ d[2] \notin A })
MinCut(n, E, s, t) == MinOf({ CutOf(E, A \cup {s}) : A \in SUBSET ((1 .. n) \ {s, t}) })
=============================================================================
