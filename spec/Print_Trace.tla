------------------------------ MODULE Print_Trace ------------------------------
EXTENDS TraceBase, Print
XInit(c) == [c |-> c, s |-> PInit(c)]
XStep(k, e) ==
  LET o == PDo(k.c, k.s, e.op, e.a)
  IN [st |-> [k EXCEPT !.s = o.st],
      bad |-> IF e.x # o.x THEN e.op \o ": raises " \o e.x
              ELSE IF ~Denotes(k.c, o.st, e.o) THEN "what is printed is not what is held" ELSE ""]
=============================================================================
