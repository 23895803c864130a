------------------------------ MODULE Graph_Trace ------------------------------
(* cfg: n the vertices at first (e their edges), p the names probed, m = 1 for static graphs       *)
(* (matrices).  o.vs: vertices listed (NONE if the graph does not list them); nv,   *)
(* ne: counts; adj: <<u, w, 1/0/-1>>; nb: <<u, neighbours or <<-1>> >>;             *)
(* ed: <<u, w, weight>>; -1 for a question about an unknown vertex that was refused *)
EXTENDS TraceBase, Graph
XInit(c) == [m |-> c.m = 1, k |-> GInit(Rng(c.n), IF "e" \in DOMAIN c THEN { <<p[1], p[2], NONE>> : p \in Rng(c.e) } ELSE {})]
ObsBad(k, o) ==
  FirstBad(<< <<o.nv = Cardinality(k.v), "the number of vertices is wrong">>,
              <<o.vs = <<NONE>> \/ (Rng(o.vs) = k.v /\ Len(o.vs) = Cardinality(k.v)), "the vertices listed are wrong">>,
              <<\A t \in Rng(o.adj) : t[3] = B2I(Linked(k, t[1], t[2])) \/ (t[3] = -1 /\ {t[1], t[2]} \cap k.v # {t[1], t[2]}), "adjacency is wrong">>,
              <<\A t \in Rng(o.nb) : \/ Rng(t[2]) = NextOf(k, t[1]) /\ Len(t[2]) = Cardinality(Rng(t[2]))
                                     \/ t[2] = <<-1>> /\ t[1] \notin k.v, "neighbours are wrong">>,
              <<\A t \in Rng(o.ed) : t[3] = Weight(k, t[1], t[2]) \/ (t[3] = -1 /\ {t[1], t[2]} \cap k.v # {t[1], t[2]}), "the weight of an edge is wrong">>,
              <<\A t \in Rng(o.ends) : t[1] = t[3] /\ t[2] = t[4], "an edge joins the wrong vertices">>,
              <<o.ne = Cardinality(k.e), "the number of edges is wrong">> >>)
XStep(s, e) ==
  LET g == GOut(s.k, s.m, e.op, e.a)
      o == ObsBad(g.st, e.o)
  IN [st |-> [s EXCEPT !.k = g.st],
      bad |-> IF e.op = "init" /\ e.x = "" THEN (IF o = "" THEN "" ELSE "init: " \o o)
              ELSE IF e.x \notin g.x THEN e.op \o ": raises " \o (IF e.x = "" THEN "no exception where one is specified" ELSE e.x)
              ELSE IF e.op = "query" /\ e.r[1] # e.r[2] THEN "query: the same question got another answer the second time"
              ELSE IF o # "" THEN e.op \o ": " \o o ELSE ""]
=============================================================================
