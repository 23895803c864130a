-------------------------------- MODULE Array --------------------------------
(* Fixed-size one- and multi-dimensional arrays.  State: the shape and a       *)
(* function from index tuples to the value last written (NONE: never).         *)
EXTENDS Base

RECURSIVE Tuples(_)
Tuples(shape) == IF shape = <<>> THEN { <<>> }
                 ELSE { <<j>> \o t : j \in 0 .. shape[1] - 1, t \in Tuples(Tail(shape)) }
\* a one-dimensional array may have length 0
ArrInit(c) == [shape |-> c.shape, cell |-> [ix \in Tuples(c.shape) |-> NONE]]

ArrNew(k, form, n, elems) ==       \* the constructor forms of a one-dimensional array
  CASE form = "size" -> Out([shape |-> <<n>>, cell |-> [ix \in Tuples(<<n>>) |-> NONE]], NONE)
    [] form = "size_init" -> Out([shape |-> <<n>>, cell |-> [ix \in Tuples(<<n>>) |-> elems[1]]], NONE)
    [] form \in {"list", "tuple", "list_f", "tuple_f"} -> Out([shape |-> <<Len(elems)>>, cell |-> [ix \in Tuples(<<Len(elems)>>) |-> elems[ix[1] + 1]]], NONE)
    [] form \in {"size_list", "list_size", "size_tuple", "tuple_size", "size_list_f", "list_size_f", "size_tuple_f", "tuple_size_f"} ->
         IF n # Len(elems) THEN Fail(k, "ValueError")
         ELSE Out([shape |-> <<n>>, cell |-> [ix \in Tuples(<<n>>) |-> elems[ix[1] + 1]]], NONE)

ArrDo(k, op, a) ==
  CASE op = "init" -> Out(k, NONE)
    [] op = "new" -> ArrNew(k, a[1], a[2], a[3])
    [] op = "get" -> IF a[1] \in DOMAIN k.cell THEN Out(k, k.cell[a[1]]) ELSE Fail(k, "IndexError")
    [] op = "set" -> IF a[1] \in DOMAIN k.cell THEN Out([k EXCEPT !.cell[a[1]] = a[2]], NONE) ELSE Fail(k, "IndexError")
    [] op = "fill" -> Out([k EXCEPT !.cell = [ix \in DOMAIN k.cell |-> a[1]]], NONE)

\* the observation lists every index tuple with the value read through it
ArrObsBad(k, o) ==
  FirstBad(<< <<o.shape = k.shape, "shape/length changed">>,
              <<Len(o.cells) = Cardinality(DOMAIN k.cell), "number of cells">>,
              <<\A j \in Idx(o.cells) : o.cells[j][1] \in DOMAIN k.cell, "a cell outside the shape">>,
              <<\A j \in Idx(o.cells) : o.cells[j][2] = k.cell[o.cells[j][1]],
                "a cell does not hold the value last written to it">> >>)
=============================================================================
