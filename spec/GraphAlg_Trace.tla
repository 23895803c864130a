---------------------------- MODULE GraphAlg_Trace ----------------------------
(* cfg: n, e (the edges), und (1: e is symmetric).  One event per run of an algorithm,  *)
(* with the arguments in e.a and the answer in e.r.  A traversal is one event "begin",   *)
(* one "visit" per call of the visiting operation, and one "end".                        *)
EXTENDS TraceBase, GraphAlg
XInit(c) == [n |-> c.n, E |-> Rng(c.e), L |-> <<>>, s |-> 0, bfs |-> FALSE, par |-> FALSE,
             seen |-> {}, leaves |-> {}, stop |-> {}, at |-> 1]
Judge(s, e, cl) == [st |-> s, bad |-> IF e.x # "" THEN e.op \o ": raises " \o e.x
                                       ELSE LET b == FirstBad(cl) IN IF b = "" THEN "" ELSE e.op \o ": " \o b]
Refused(s, e, why) == [st |-> s, bad |-> IF e.x = "ValueError" THEN "" ELSE e.op \o ": " \o why]

\* ---- traversals: e.a = <<source, breadth-first?, parallel?>>
Begin(s, e) == [s EXCEPT !.s = e.a[1], !.bfs = e.a[2] = 1, !.par = e.a[3] = 1, !.seen = {e.a[1]}, !.leaves = {}, !.stop = {},
                         !.L = Layers(s.E, {e.a[1]}, {e.a[1]}), !.at = 1]
\* e.a = <<from, to (0: none), what the operation answered>>
Visit(s, e) ==
  LET u == e.a[1]  w == e.a[2]  hu == HopOf(s.L, u)
      s2 == [s EXCEPT !.seen = IF w = 0 THEN @ ELSE @ \cup {w},
                      !.leaves = IF w = 0 THEN @ \cup {u} ELSE @,
                      !.stop = IF e.a[3] = 0 THEN @ \cup {hu} ELSE @,
                      !.at = hu]
  IN Judge(s2, e, <<
       <<s.par \/ s.stop = {}, "the traversal continued after a false result">>,
       <<\A h \in s.stop : hu <= h, "the traversal went on to the next layer after a false result">>,
       <<u \in s.seen, "the traversal continues from a vertex it has not reached">>,
       <<w # 0 \/ (Succ(s.E, u) = {} /\ u \notin s.leaves), "a dead end is reported where there is none, or twice">>,
       <<w = 0 \/ HasE(s.E, u, w), "the traversal follows an edge that does not exist">>,
       <<w = 0 \/ w \notin s.seen, "a vertex is visited twice">>,
       <<~s.bfs \/ (s.at <= hu /\ (w = 0 \/ HopOf(s.L, w) = hu + 1)), "vertices are not reached in the order of their distance">> >>)
End(s, e) == Judge(s, e, <<                             <<s.stop # {} \/ s.seen = Reach(s.E, s.s), "a reachable vertex is never visited">> >>)

\* ---- e.r = [nv, ne, nb: <<u, neighbours>>, ed: <<u, w, weight>>]
Mst(s, e) ==
  LET T == Rng(e.r.ed)
      \* Prim's algorithm spans one component
      C == IF e.a[1] # "prim" THEN 1 .. s.n ELSE { u \in 1 .. s.n : \A t \in Rng(e.r.nb) : t[1] = u => t[2] # <<-888888>> }
  IN
  Judge(s, e, <<                  <<e.r.nv = Cardinality(C) /\ (e.a[1] # "prim" \/ s.n = 0 \/ C \in Comps(s.n, s.E)), "the tree does not have the vertices of the graph">>,
                 <<T \subseteq s.E, "the tree has an edge, or a weight, that the graph does not have">>,
                 <<\A t \in Rng(e.r.nb) : t[1] \in C => Rng(t[2]) = Succ(T, t[1]) /\ Len(t[2]) = Cardinality(Rng(t[2])), "neighbours in the tree do not agree with its edges">>,
                 <<e.r.ne = Cardinality(T), "the tree does not count its edges">>,
                 <<IsForestOn(C, s.E, T), "the result is not a spanning tree">>,
                 <<IsMinimal({ d \in s.E : d[1] \in C }, T), "a lighter spanning tree exists">> >>)

\* ---- e.a = <<algorithm, source, target or 0>>; e.r = <<distances, predecessors>>
Sp(s, e) ==
  LET src == e.a[2]  t == e.a[3]
      neg == \E d \in s.E : d[3] < 0 /\ d[1] \in Reach(s.E, src)
      wrong == neg /\ NegCycleFrom(s.n, s.E, src)
      d == Dist(s.n, s.E, src)
      p == e.r[2]
  IN IF wrong THEN Refused(s, e, "a negative cycle is not reported")
     ELSE Judge(s, e, <<             <<IF t = 0 THEN e.r[1] = d ELSE e.r[1] = <<d[t]>>, "a distance is wrong">>,
            <<\A v \in 1 .. s.n : d[v] # INF => Spells(s.E, p, src, v, d[v], s.n), "the predecessors do not spell a shortest path">>,
            <<\A v \in 1 .. s.n : (d[v] = INF \/ v = src) => p[v] = 0, "an unreachable vertex, or the source, has a predecessor">> >>)

\* ---- no negative cycles; e.r = <<matrix of distances, matrix of predecessors (0: none)>>
Apsp(s, e) ==
  LET D == TLCEval([u \in 1 .. s.n |-> Dist(s.n, s.E, u)])
           P == e.r[2]
           neg == e.a[1] = "johnson" /\ \E u \in 1 .. s.n : D[u][u] < 0 \/ NegCycleFrom(s.n, s.E, u)
       IN IF neg THEN Refused(s, e, "a negative cycle is not reported")
          ELSE Judge(s, e, <<             <<e.r[1] = D, "a distance is wrong">>,
            <<\A u, v \in 1 .. s.n : u = v \/ D[u][v] = INF \/ P[u][v] = 0
                \/ (P[u][v] \in 1 .. s.n /\ HasE(s.E, P[u][v], v) /\ Plus(D[u][P[u][v]], WOf(s.E, P[u][v], v)) = D[u][v]),
              "a predecessor is not on a shortest path">> >>)

Topo(s, e) == IF Cyclic(s.n, s.E) THEN Refused(s, e, "a cycle is not refused")
              ELSE Judge(s, e, << <<IsTopo(s.n, s.E, e.r), "the order does not respect the edges">> >>)
Scc(s, e) == Judge(s, e, <<                             <<\A c \in Rng(e.r) : Len(c) = Cardinality(Rng(c)), "a component repeats a vertex">>,
                            <<{ Rng(c) : c \in Rng(e.r) } = SCCs(s.n, s.E), "the components are not the classes of mutual reachability">>,
                            <<Len(e.r) = Cardinality(SCCs(s.n, s.E)), "a component is reported twice">> >>)
Flow(s, e) == Judge(s, e, <<                              <<e.r = MinCut(s.n, s.E, e.a[2], e.a[3]), "the flow is not that of a minimum cut">> >>)
Bridge(s, e) == LET B == { {d[1], d[2]} : d \in Bridges(s.n, s.E) } IN
                Judge(s, e, <<                                <<{ {p[1], p[2]} : p \in Rng(e.r) } = B, "the bridges are not the edges whose removal disconnects">>,
                               <<Len(e.r) = Cardinality(B), "a bridge is reported twice">> >>)

XStep(s, e) == CASE e.op = "begin" -> Judge(Begin(s, e), e, <<>>)
                 [] e.op = "visit" -> Visit(s, e)
                 [] e.op = "end" -> End(s, e)
                 [] e.op = "mst" -> Mst(s, e)
                 [] e.op = "sp" -> Sp(s, e)
                 [] e.op = "apsp" -> Apsp(s, e)
                 [] e.op = "topo" -> Topo(s, e)
                 [] e.op = "scc" -> Scc(s, e)
                 [] e.op = "flow" -> Flow(s, e)
                 [] e.op = "bridges" -> Bridge(s, e)
                 [] OTHER -> [st |-> s, bad |-> "unknown event"]
=============================================================================
