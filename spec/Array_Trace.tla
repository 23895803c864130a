----------------------------- MODULE Array_Trace -----------------------------
EXTENDS TraceBase, Array
XInit(c) == ArrInit(c)
XStep(k, e) == LET o == ArrDo(k, e.op, e.a) IN StepDet(o, e, ArrObsBad(o.st, e.o))
=============================================================================
