----------------------------- MODULE PQueue_Trace -----------------------------
EXTENDS TraceBase, PQueue
XInit(c) == PQInit(c)
XStep(k, e) ==
  LET outs == PQOuts(k, e.op, e.a)
      okx == { o \in outs : o.x = e.x }
      ok == { o \in okx : e.x # "" \/ o.r = e.r }
      k2 == (CHOOSE o \in ok : TRUE).st
  IN IF okx = {} THEN [st |-> k, bad |-> e.op \o ": raises (observed: " \o e.x \o ")"]
     ELSE IF ok = {} THEN [st |-> k, bad |-> e.op \o ": not an element of extreme priority (or not the one peeked)"]
     ELSE [st |-> k2, bad |-> IF e.o # B2I(k2.bag = {}) THEN e.op \o ": emptiness flag is wrong" ELSE ""]
=============================================================================
