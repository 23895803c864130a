------------------------------ MODULE Sort_Trace ------------------------------
(* Each event sorts its own array: a = <<algorithm, order, cells, lo, hi>>.      *)
(* o.cells: afterwards; o.copy: the returned new array (or the empty sequence);  *)
(* o.more: items after one more append (dynamic arrays only).                    *)
EXTENDS TraceBase, Sort
XInit(c) == 0
XStep(k, e) ==
  LET in == e.a[3]
      b == IF e.a[1] = "counting" THEN (IF e.o.cells # in THEN "the argument changed" ELSE CopySortBad(in, e.o.copy))
           ELSE SortBad(in, e.a[4], e.a[5], e.a[2], e.o.cells)
  IN [st |-> k,
      bad |-> IF e.x # "" THEN e.a[1] \o ": raised " \o e.x
              ELSE IF e.r # 1 THEN e.a[1] \o ": did not return the array"
              ELSE IF b # "" THEN e.a[1] \o ": " \o b
              ELSE IF e.o.dyn = 1 /\ e.o.more # Append(Filled(e.o.cells), 77) THEN e.a[1] \o ": a later append lost or displaced items"
              ELSE ""]
=============================================================================
