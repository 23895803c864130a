----------------------------- MODULE Stack_Trace -----------------------------
EXTENDS TraceBase, Stack
XInit(c) == StackInit(c)
XStep(k, e) == LET o == StackDo(k, e.op, e.a) IN StepDet(o, e, StackObsBad(o.st, e.o))
=============================================================================
