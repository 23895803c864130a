------------------------------ MODULE Text_Trace ------------------------------
\* a = <<algorithm, text, pattern>>; r: the positions reported
EXTENDS TraceBase, Text
XInit(c) == 0
XStep(k, e) == [st |-> k, bad |-> IF e.x # "" THEN e.op \o ": raises " \o e.x
                                  ELSE IF e.r # Occ(e.a[2], e.a[3]) THEN e.op \o ": not exactly the occurrences" ELSE ""]
=============================================================================
