------------------------------- MODULE DSU_Trace -------------------------------
EXTENDS TraceBase, DSU
XInit(c) == DInit
XStep(k, e) == LET o == DOut(k, e.op, e.a, e.r)
                   b == IF e.x = "" /\ e.op = "sets" /\ ~ListingOK(k, e.r) THEN "the listing is wrong" ELSE ObsBad(o.st, e.o) IN StepDet(o, e, b)
=============================================================================
