------------------------------ MODULE BIT_Trace ------------------------------
\* o: every prefix sum, and every range sum of a sample
EXTENDS TraceBase, BIT
XInit(c) == c.cells
ObsBad(k, o) == FirstBad(<< <<Len(o.pre) = Len(k) /\ \A j \in Idx(k) : o.pre[j] = SumSeq(SubSeq(k, 1, j)), "a prefix sum is wrong">>,
                            <<\A t \in Rng(o.sums) : t[3] = SumSeq(SubSeq(k, t[1] + 1, t[2] + 1)), "a range sum is wrong">> >>)
XStep(k, e) == LET o == BOut(k, e.op, e.a) IN StepDet(o, e, ObsBad(o.st, e.o))
=============================================================================
