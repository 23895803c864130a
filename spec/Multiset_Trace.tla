---------------------------- MODULE Multiset_Trace ----------------------------
(* o.n: len; o.p: <<probe, count, contained, lower bound, upper bound>>           *)
EXTENDS TraceBase, Multiset
XInit(c) == FoldSeq(LAMBDA x, s : Upd(s, x, Mult(s, x) + 1), {}, c.init)
ObsBad(s, o) ==
  FirstBad(<< <<o.n = Total(s), "the length is wrong">>,
              <<\A p \in Rng(o.p) : p[2] = Mult(s, p[1]), "a count is wrong">>,
              <<\A p \in Rng(o.p) : p[3] = B2I(Mult(s, p[1]) > 0), "containment is wrong">>,
              <<\A p \in Rng(o.p) : p[4] = Least({ x \in Held(s) : x >= p[1] }), "a lower bound is wrong">>,
              <<\A p \in Rng(o.p) : p[5] = Least({ x \in Held(s) : x > p[1] }), "an upper bound is wrong">> >>)
XStep(s, e) == LET o == MSOut(s, e.op, e.a) IN StepDet(o, e, ObsBad(o.st, e.o))
=============================================================================
