------------------------------ MODULE Offer_Trace ------------------------------
(* ask: a = <<entry, algorithm, implementation, backend>>; r = 1: an answer of    *)
(* the right kind came back.  o: what the graphs and the tree look like.          *)
EXTENDS TraceBase, Offer
XInit(c) == c.o
XStep(k, e) ==
  IF e.op = "init" THEN [st |-> k, bad |-> IF e.x # "" \/ e.o # k THEN "the subjects could not be built" ELSE ""]
  ELSE LET ok == Refusals(e.a[1], e.a[2], e.a[3], e.a[4]) IN
    [st |-> k,
     bad |-> IF e.x \notin ok THEN (IF e.x = "" THEN "what is not offered was answered: " ELSE IF ok = {""} THEN "what is offered was refused: " ELSE "refused with the wrong exception: ")
                                   \o e.a[1] \o " " \o e.a[2] \o " " \o e.a[3] \o " " \o e.a[4] \o " " \o e.x
             ELSE IF e.x = "" /\ e.r # 1 THEN "no answer: " \o e.a[1]
             ELSE IF e.o # k THEN "the request changed what it was asked about: " \o e.a[1] ELSE ""]
=============================================================================
