------------------------------ MODULE Stab_Trace ------------------------------
(* cfg.ivs: the intervals; a query's argument and the interval ends are doubled   *)
(* on this side, so that queries may fall between integers.                       *)
EXTENDS TraceBase, Stab
XInit(c) == c.ivs
XStep(k, e) == [st |-> k, bad |-> IF e.op = "make"
                                  THEN IF e.x = MakeError(e.a[1]) THEN "" ELSE "make: raises (specified: " \o MakeError(e.a[1]) \o ", observed: " \o e.x \o ")"
                                  ELSE IF e.x # "" THEN e.op \o ": raises " \o e.x
                                  ELSE IF e.op = "query" /\ ~SameBag(e.r, Expected(k, e.a[1])) THEN "query: not exactly the intervals containing the point"
                                  ELSE IF e.op = "init" /\ e.o # k THEN "init: the caller's intervals changed" ELSE ""]
=============================================================================
