------------------------------ MODULE Typed_Trace ------------------------------
EXTENDS TraceBase, Typed
XInit(c) == [c |-> c, s |-> TyInit(c)]
XStep(k, e) ==
  LET o == TyDo(k.c, k.s, e.op, e.a)
      sd == StepDet(o, e, IF e.o = o.st.s THEN "" ELSE IF o.x # "" THEN "a refused call changed what is held" ELSE "items of the wrong type or value are held")
  IN [st |-> [k EXCEPT !.s = sd.st], bad |-> sd.bad]
=============================================================================
