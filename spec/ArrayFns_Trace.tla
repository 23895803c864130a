---------------------------- MODULE ArrayFns_Trace ----------------------------
(* One call per event.  a = <<variant, order, cells, lo, hi, value>> (search,     *)
(* ordered, bounds, permutations), <<cells>> (lis), <<cells, cells>> (lcs).       *)
(* o.cells: the argument afterwards; o.out: a returned sequence.                  *)
EXTENDS TraceBase, ArrayFns
XInit(c) == 0
Verdict(e) ==
  CASE e.op \in {"linear", "binary", "jump"} -> SearchBad(e.op, e.a[3], e.a[4], e.a[5], e.a[6], e.r)
    [] e.op = "is_ordered" -> IF e.r = B2I(IsOrdered(e.a[2], e.a[3], e.a[4], e.a[5])) THEN "" ELSE "wrong answer"
    [] e.op = "lower" -> IF e.r = LowerBound(e.a[2], e.a[3], e.a[4], e.a[5], e.a[6]) THEN "" ELSE "wrong position"
    [] e.op = "upper" -> IF e.r = UpperBound(e.a[2], e.a[3], e.a[4], e.a[5], e.a[6]) THEN "" ELSE "wrong position"
    [] e.op \in {"next", "prev"} -> PermBad(e.op, e.a[2], e.a[3], e.a[4], e.a[5], e.r, e.o.out)
    [] e.op = "lis" -> LisBad(e.a[3], e.o.out)
    [] e.op = "lcs" -> LcsBad(e.a[3], e.a[4], e.o.out)
XStep(k, e) ==
  LET b == IF e.x # "" THEN "raised " \o e.x
           ELSE IF e.o.cells # e.a[3] THEN "the argument changed"
           ELSE Verdict(e)
  IN [st |-> k, bad |-> IF b = "" THEN "" ELSE e.op \o ": " \o b]
=============================================================================
