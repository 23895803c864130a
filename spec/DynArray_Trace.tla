---------------------------- MODULE DynArray_Trace ----------------------------
EXTENDS TraceBase, DynArray
XInit(c) == DAInit(c)
XStep(k, e) ==
  IF e.x # NextExc(k, e.op, e.a) THEN [st |-> k, bad |-> e.op \o ": raises (observed: " \o e.x \o ")"]
  ELSE LET b == NextBad(k, e.op, e.a, e.o.cells) IN
  [st |-> [k EXCEPT !.cells = e.o.cells],
   bad |-> IF b # "" THEN e.op \o ": " \o b
           ELSE IF e.o.size # Len(e.o.cells) THEN e.op \o ": reported size"
           ELSE IF e.o.str # Filled(e.o.cells) THEN e.op \o ": str() does not list the items in order"
           ELSE IF e.o.rev # Reverse(Filled(e.o.cells)) THEN e.op \o ": reversed() does not list the items in reverse order"
           ELSE ""]
=============================================================================
