----------------------------- MODULE Faults_Trace -----------------------------
(* a = <<argument, argument, number of the consultation which raises (0: none)>>.   *)
(* o.s: the structure afterwards; o.m: consultations made; o.p: an arrangement        *)
(* returned (it is not made in place).  cfg.par: several                              *)
(* threads consult, so that some may do so after one of them met the exception.      *)
EXTENDS TraceBase, Faults
XInit(c) == [kind |-> c.kind, s |-> c.s, par |-> c.par]
XStep(k, e) ==
  IF e.op = "init" THEN
    [st |-> [k EXCEPT !.s = e.o.s],
     bad |-> IF e.x # "" THEN "init: raised " \o e.x
             ELSE IF k.kind = "tree" THEN (IF IsPerm(InKeys(e.o.s), PreKeys(e.o.s)) /\ InKeys(e.o.s) = SetToSortSeq(Rng(k.s), <) THEN "" ELSE "init: the keys held")
             ELSE IF k.kind = "heap" /\ e.o.s = SortSeq(k.s, <) THEN ""
             ELSE IF e.o.s # k.s THEN "init: the contents" ELSE ""]
  ELSE
    LET n == e.a[3]
        verd == IF n > 0 /\ e.o.m >= n
               THEN (IF e.x # "Fault" THEN "the exception of the caller's function did not come back (observed: " \o (IF e.x = "" THEN "no exception" ELSE e.x) \o ")"
                     ELSE IF k.par = 0 /\ e.o.m # n THEN "the function was asked again after its exception"
                     ELSE Abandoned(k, e.op, e.a[1], e.a[2], e.o.s))
               ELSE IF e.x # Refused(k, e.op, e.a[1], e.a[2]) THEN "raised " \o e.x
               ELSE IF e.x # "" THEN Abandoned(k, e.op, e.a[1], e.a[2], e.o.s)
               ELSE Done(k, e.op, e.a[1], e.a[2], e.r, e.o.s, e.o.p)
    IN [st |-> [k EXCEPT !.s = e.o.s], bad |-> IF verd = "" THEN "" ELSE e.op \o ": " \o verd]
=============================================================================
