-------------------------------- MODULE Graph --------------------------------
(* Directed weighted graphs as an abstract data type.                          *)
(* State: v, the set of vertices; e, the set of edges <<source, target, weight>>,*)
(* at most one per ordered pair.  Weight NONE: an edge without a weight.        *)
EXTENDS Base

Pair(d) == <<d[1], d[2]>>
Edge(k, u, w) == { d \in k.e : Pair(d) = <<u, w>> }
Linked(k, u, w) == Edge(k, u, w) # {}
Weight(k, u, w) == IF Linked(k, u, w) THEN (CHOOSE d \in Edge(k, u, w) : TRUE)[3] ELSE NONE
NextOf(k, u) == { d[2] : d \in { c \in k.e : c[1] = u } }
GInit(vs, es) == [v |-> vs, e |-> es]

AddV(k, u) == [k EXCEPT !.v = @ \cup {u}]
Joined(k, u, ws) == [v |-> k.v \cup {u}, e |-> k.e \cup { <<u, w, NONE>> : w \in ws }]
RemV(k, u) == [v |-> k.v \ {u}, e |-> { d \in k.e : d[1] # u /\ d[2] # u }]
\* an edge added again keeps its weight unless a new one is given
AddE(k, u, w, c) == [k EXCEPT !.e = (@ \ Edge(k, u, w)) \cup { <<u, w, IF c = NONE THEN Weight(k, u, w) ELSE c>> }]
RemE(k, u, w) == [k EXCEPT !.e = @ \ Edge(k, u, w)]

\* Outcomes: successor state and the exceptions that may be raised ("" is none).
\* Misuse (unknown vertices, absent edges) may be ignored or refused; either way nothing changes.
Oops == {"", "ValueError", "KeyError", "AttributeError"}
Static == {"NotImplementedError", "AttributeError"}
GOut(k, m, op, a) ==
  CASE op = "addv" -> IF m THEN [st |-> k, x |-> Static]
                      ELSE IF a[1] \in k.v THEN [st |-> k, x |-> {"", "ValueError"}]
                      ELSE [st |-> AddV(k, a[1]), x |-> {""}]
    \* a vertex that comes with its neighbours
    [] op = "addvl" -> IF a[1] \in k.v THEN [st |-> k, x |-> {"", "ValueError"}]
                       ELSE [st |-> Joined(k, a[1], Rng(Tail(a))), x |-> {""}]
    \* what cannot be a cost is refused
    [] op = "badcost" -> [st |-> k, x |-> IF {a[1], a[2]} \subseteq k.v THEN {"TypeError"} ELSE {"ValueError"}]
    [] op = "remv" -> IF m THEN [st |-> k, x |-> Static]
                      ELSE IF a[1] \notin k.v THEN [st |-> k, x |-> Oops]
                      ELSE [st |-> RemV(k, a[1]), x |-> {""}]
    [] op = "adde" -> IF {a[1], a[2]} \subseteq k.v THEN [st |-> AddE(k, a[1], a[2], a[3]), x |-> {""}]
                      ELSE [st |-> k, x |-> {"ValueError"}]
    [] op = "reme" -> IF Linked(k, a[1], a[2]) THEN [st |-> RemE(k, a[1], a[2]), x |-> {""}]
                      ELSE [st |-> k, x |-> Oops]
    [] OTHER -> [st |-> k, x |-> {""}]
WellFormed(k) == /\ \A d \in k.e : {d[1], d[2]} \subseteq k.v
                 /\ \A d, c \in k.e : Pair(d) = Pair(c) => d = c
=============================================================================
