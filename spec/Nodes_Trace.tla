------------------------------ MODULE Nodes_Trace ------------------------------
(* cfg: t the kind of node, be the backend, f what it was given (<<field, value>>), *)
(* ch its children, adj its neighbours (<<name, data>>).  o.f: its fields; o.p: what *)
(* it prints; o.ch; o.up: whether each child points back; o.adj: <<name, data>>      *)
EXTENDS TraceBase, Nodes
XInit(c) == [c |-> c, k |-> NInit(c)]
ObsBad(c, k, o) ==
  FirstBad(<< <<{ p[1] : p \in Rng(o.f) } = Fields(c.t) /\ Len(o.f) = Cardinality(Fields(c.t)), "fields are missing">>,
              <<\A p \in Rng(o.f) : p[2] = k.f[p[1]], "a field holds something else">>,
              <<IF c.t = "trie" THEN IsPerm(o.ch, k.ch) ELSE o.ch = k.ch, "the children are wrong">>,
              <<o.up = 1, "a child does not point to its parent">>,
              <<Len(o.adj) = Len(k.adj) /\ Rng(o.adj) = { <<x[1], k.pool[x[2]]>> : x \in Rng(k.adj) }, "the neighbours are wrong">>,
              <<o.p = Printed(c, k), "it prints something else">> >>)
XStep(s, e) == LET o == NDo(s.c, s.k, e.op, e.a)
                   sd == StepDet(o, e, ObsBad(s.c, o.st, e.o))
               IN [st |-> [s EXCEPT !.k = sd.st], bad |-> sd.bad]
=============================================================================
