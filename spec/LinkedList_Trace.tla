--------------------------- MODULE LinkedList_Trace ---------------------------
EXTENDS TraceBase, LinkedList
XInit(c) == LLInit(c)
XStep(k, e) == LET o == LLDo(k, e.op, e.a) IN StepDet(o, e, LLObsBad(o.st, e.o))
=============================================================================
