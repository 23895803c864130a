------------------------------ MODULE GraphAlg_MC ------------------------------
(* All small graphs.  For each of them the definitions the answers are judged by    *)
(* are compared with others that quantify over all trees, paths, flows or orders.    *)
EXTENDS ModelBase, GraphAlg
CONSTANTS Kind, N, Weights, Und, Loops
WOne == {1}
W12 == {1, 2}
W123 == {1, 2, 3}
W02 == {0, 1, 2}
WNeg == {-1, 1, 2}
V == 1 .. N
DirPairs == { p \in V \X V : Loops \/ p[1] # p[2] }
UndPairs == { p \in V \X V : p[1] < p[2] \/ (Loops /\ p[1] = p[2]) }
EdgesOf(f) == { <<p[1], p[2], f[p]>> : p \in { q \in DOMAIN f : f[q] # NONE } }
Graphs == IF Und THEN { Sym(EdgesOf(f)) : f \in [UndPairs -> Weights \cup {NONE}] }
          ELSE { EdgesOf(f) : f \in [DirPairs -> Weights \cup {NONE}] }
Wanted(E) == (Kind # "apsp" \/ ~NegCycle(N, E))
MC_Inits == { <<[n |-> N, e |-> E, und |-> IF Und THEN 1 ELSE 0], E>> : E \in { F \in Graphs : Wanted(F) } }
MC_Calls(c, E) == { [op |-> Kind, a |-> <<>>] }
MC_Do(E, c) == [st |-> E, x |-> "", r |-> NONE]

\* ---- independent definitions
RECURSIVE SimplePaths(_, _, _, _)
SimplePaths(E, u, v, seen) == IF u = v THEN { <<u>> }
  ELSE UNION { { <<u>> \o p : p \in SimplePaths(E, w, v, seen \cup {w}) } : w \in Succ(E, u) \ seen }
PathW(E, p) == FoldSeq(LAMBDA j, a : a + WOf(E, p[j], p[j + 1]), 0, [j \in 1 .. Len(p) - 1 |-> j])
HasCycle(E, neg) == \E u \in V : \E w \in Succ(E, u) : \E p \in SimplePaths(E, w, u, {w}) : ~neg \/ PathW(E, p) + WOf(E, u, w) < 0
SpLemma(E) == /\ NegCycle(N, E) = HasCycle(E, TRUE)
              /\ ~NegCycle(N, E) => \A s, v \in V :
                   Dist(N, E, s)[v] = MinOf({INF} \cup { PathW(E, p) : p \in SimplePaths(E, s, v, {s}) })
HopLemma(E) == \A s \in V : LET L == Layers(E, {s}, {s}) IN
                 \A v \in V : HopOf(L, v) - 1 = MinOf({INF - 1} \cup { Len(p) - 1 : p \in SimplePaths(E, s, v, {s}) })
Trees(E) == { T \in { Sym(F) : F \in SUBSET { d \in E : d[1] < d[2] } } : IsSpanning(N, E, T) }
MstLemma(E) == LET ts == Trees(E) IN ts # {} /\ \A T \in ts : IsMinimal(E, T) = (\A U \in ts : WeightOf(T) <= WeightOf(U))
TopoLemma(E) == Cyclic(N, E) = HasCycle(E, FALSE) /\ Cyclic(N, E) = ~(\E L \in { q \in [V -> V] : Rng(q) = V } : IsTopo(N, E, L))
SccLemma(E) == /\ UNION SCCs(N, E) = V
               /\ \A A, B \in SCCs(N, E) : A = B \/ A \cap B = {}
               /\ \A u, w \in V : (\E A \in SCCs(N, E) : {u, w} \subseteq A) = (w \in Reach(E, u) /\ u \in Reach(E, w))
Pairs2 == { p \in V \X V : p[1] # p[2] }
NetOut(f, v) == FoldSet(LAMBDA d, a : a + (IF d[1] = v THEN f[d] ELSE 0) - (IF d[2] = v THEN f[d] ELSE 0), 0, DOMAIN f)
Flows(E) == { f \in [E -> 0 .. 2] : \A d \in E : f[d] <= d[3] }
FlowLemma(E) == \A p \in { <<1, 2>> } :
   LET fs == { f \in Flows(E) : \A v \in V \ {p[1], p[2]} : NetOut(f, v) = 0 }
   IN MinCut(N, E, p[1], p[2]) = -MinOf({ -NetOut(f, p[1]) : f \in fs })
BridgeLemma(E) == \A d \in E : d[1] < d[2] => ((d \in Bridges(N, E)) = (Cardinality(Comps(N, Without(E, d[1], d[2]))) > Cardinality(Comps(N, E))))
Lemma == Len(h) > 0 \/ CASE Kind = "walk" -> HopLemma(st)
           [] Kind \in {"sp", "apsp"} -> SpLemma(st)
           [] Kind = "mst" -> MstLemma(st)
           [] Kind = "topo" -> TopoLemma(st)
           [] Kind = "scc" -> SccLemma(st)
           [] Kind = "flow" -> FlowLemma(st)
           [] Kind = "bridges" -> BridgeLemma(st)
=============================================================================
