------------------------------ MODULE Trie_Trace ------------------------------
(* o.in, o.pre: <<string, is_inserted, is_present>> for every probe string;       *)
(* o.lists: <<prefix, strings listed>>.                                           *)
EXTENDS TraceBase, Trie
XInit(c) == {}
ObsBad(k, o) ==
  FirstBad(<< <<\A t \in Rng(o.probe) : t[2] = B2I(t[1] \in k), "presence of a string is wrong">>,
              <<\A t \in Rng(o.probe) : t[3] = B2I(t[1] = <<>> \/ With(k, t[1]) # {}), "presence of a prefix is wrong">>,
              <<\A t \in Rng(o.lists) : Rng(t[2]) = With(k, t[1]), "the strings listed for a prefix are wrong">>,
              <<\A t \in Rng(o.lists) : Len(t[2]) = Cardinality(Rng(t[2])), "a string is listed twice">> >>)
XStep(k, e) == LET o == TOut(k, e.op, e.a) IN StepDet(o, e, ObsBad(o.st, e.o))
=============================================================================
