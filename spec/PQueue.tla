-------------------------------- MODULE PQueue --------------------------------
(* Priority queue.  State: the bag of <<priority, value, number of the push>>,  *)
(* the order (least, greatest or of least magnitude first), and the pair         *)
(* promised by the last peek.                                                    *)
EXTENDS Base
PQInit(c) == [max |-> c.max, mag |-> c.mag, n |-> 0, bag |-> {}, promised |-> <<>>]
Mag(p) == IF p < 0 THEN -p ELSE p
Better(k, p, q) == IF k.mag THEN Mag(p) < Mag(q) ELSE IF k.max THEN p > q ELSE p < q
Best(k) == { x \in k.bag : \A y \in k.bag : ~Better(k, y[1], x[1]) }
\* the outcomes an operation may have: several when priorities tie
PQOuts(k, op, a) ==
  CASE op = "push" -> { Out([k EXCEPT !.bag = @ \cup { <<a[2], a[1], k.n>> }, !.n = @ + 1, !.promised = <<>>], NONE) }
    [] op = "pop" -> IF k.bag = {} THEN { Fail(k, "IndexError") }
                     ELSE { Out([k EXCEPT !.bag = @ \ {x}, !.promised = <<>>], x[2]) :
                            x \in IF k.promised # <<>> THEN { k.promised } ELSE Best(k) }
    [] op = "peek" -> IF k.bag = {} THEN { Fail(k, "IndexError") }
                      ELSE { Out([k EXCEPT !.promised = x], <<x[1], x[2]>>) :
                             x \in IF k.promised # <<>> THEN { k.promised } ELSE Best(k) }
    [] op = "init" -> { Out(k, NONE) }
=============================================================================
