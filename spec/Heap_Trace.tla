------------------------------ MODULE Heap_Trace ------------------------------
EXTENDS TraceBase, Heap
XInit(c) == HInit(c)
XStep(k, e) ==
  LET outs == HOuts(k, e.op, e.a)
      okx == { o \in outs : o.x = e.x }
      ok == { o \in okx : e.x # "" \/ o.r = e.r }
      k2 == (CHOOSE o \in ok : TRUE).st
      b == LayoutBad(k2, e.o)
  IN IF okx = {} THEN [st |-> k, bad |-> e.op \o ": raises (observed: " \o e.x \o ")"]
     ELSE IF ok = {} THEN [st |-> k, bad |-> e.op \o ": not a held pair of extreme key"]
     ELSE [st |-> k2, bad |-> IF b = "" THEN "" ELSE e.op \o ": " \o b]
=============================================================================
