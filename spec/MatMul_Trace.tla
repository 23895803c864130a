----------------------------- MODULE MatMul_Trace -----------------------------
(* a = <<left, right, threads>>; o.l, o.r: the arguments afterwards.             *)
EXTENDS TraceBase, MatMul
XInit(c) == 0
XStep(k, e) == StepDet(Multiply(e.a[1], e.a[2]), e,
                       IF e.o.l # e.a[1] \/ e.o.r # e.a[2] THEN "an argument changed" ELSE "")
=============================================================================
