--------------------------- MODULE RangeQuery_Trace ---------------------------
\* state: <<cfg, contents>>; o: the array as the caller sees it
EXTENDS TraceBase, RangeQuery
\* a segment tree used by itself answers and takes updates once it is built
XInit(c) == [c |-> c, k |-> c.cells, ready |-> "lazy" \notin DOMAIN c]
XStep(s, e) == LET o == IF e.op = "build" THEN Out(s.k, NONE)
                        ELSE IF ~s.ready /\ e.op # "init" THEN Fail(s.k, "ValueError")
                        ELSE RQOut(s.c, s.k, e.op, e.a)
                   r == StepDet(o, e, IF e.o = o.st THEN "" ELSE "the contents differ") IN
               [st |-> [c |-> s.c, k |-> o.st, ready |-> s.ready \/ e.op = "build"], bad |-> r.bad]
=============================================================================
