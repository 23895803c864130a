----------------------------- MODULE Deque_Trace -----------------------------
EXTENDS TraceBase, Deque
XInit(c) == DequeInit(c)
XStep(k, e) == LET o == DequeDo(k, e.op, e.a) IN StepDet(o, e, DequeObsBad(o.st, e.o))
=============================================================================
