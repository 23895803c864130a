---------------------------- MODULE SkipList_Trace ----------------------------
EXTENDS TraceBase, SkipList
XInit(c) == SLInit(c)
XStep(k, e) ==
  LET outs == SLOuts(k, e.op, e.a)
      okx == { o \in outs : o.x = e.x }
      ok == { o \in okx : e.x # "" \/ o.r = e.r }
      k2 == (CHOOSE o \in ok : TRUE).st
      ob == SLObsBad(k2, e.o)
  IN IF okx = {} THEN [st |-> k, bad |-> e.op \o ": raises (observed: " \o e.x \o ")"]
     ELSE IF ok = {} THEN [st |-> k, bad |-> e.op \o ": result"]
     ELSE [st |-> k2, bad |-> IF ob = "" THEN "" ELSE e.op \o ": " \o ob]
=============================================================================
