----------------------------- MODULE BinHeap_Trace -----------------------------
EXTENDS TraceBase, BinHeap
XInit(c) == BHInit(c)
\* ties: the deleted pair is the one the observed state lacks
XStep(k, e) ==
  LET outs == BHOuts(k, e.op, e.a)
      okx == { o \in outs : o.x = e.x }
      okr == { o \in okx : e.x # "" \/ o.r = e.r }
      ok == { o \in okr : StateBad(o.st, e.o) = "" }
  IN IF okx = {} THEN [st |-> k, bad |-> e.op \o ": raises (observed: " \o e.x \o ")"]
     ELSE IF okr = {} THEN [st |-> k, bad |-> e.op \o ": not a held pair of smallest key"]
     ELSE IF ok = {} THEN [st |-> k, bad |-> e.op \o ": " \o StateBad((CHOOSE o \in okr : TRUE).st, e.o)]
     ELSE [st |-> (CHOOSE o \in ok : TRUE).st, bad |-> ""]
=============================================================================
