--------------------------------- MODULE BIT ---------------------------------
(* Prefix and range sums over an updated array of integers.  State: the array.   *)
EXTENDS Base
BOut(k, op, a) ==
  CASE op = "init" -> Out(k, NONE)
    [] op = "update" /\ a[1] >= Len(k) -> Fail(k, "IndexError")
    [] op = "update" -> Out([k EXCEPT ![a[1] + 1] = a[2]], NONE)
    [] op = "prefix" -> Out(k, SumSeq(SubSeq(k, 1, a[1] + 1)))
    [] op = "sum" -> Out(k, SumSeq(SubSeq(k, a[1] + 1, a[2] + 1)))
=============================================================================
