-------------------------------- MODULE Stack --------------------------------
(* LIFO stack.  State: the sequence of items, top last; `impl' fixes what an   *)
(* empty peek does (the array stacks raise, the linked one has no head).       *)
EXTENDS Base

StackInit(c) == [impl |-> c.impl, s |-> c.items]

Push(k, x) == Out([k EXCEPT !.s = Append(@, x)], NONE)
Pop(k) == IF k.s = <<>> THEN Fail(k, "IndexError")
          ELSE Out([k EXCEPT !.s = Front(@)], Last(k.s))
Peek(k) == IF k.s # <<>> THEN Out(k, Last(k.s))
           ELSE IF k.impl = "linked_list" THEN Out(k, NONE) ELSE Fail(k, "IndexError")

StackDo(k, op, a) ==
  CASE op = "push" -> Push(k, a[1])
    [] op = "pop" -> Pop(k)
    [] op = "peek" -> Peek(k)
    [] op = "init" -> Out(k, NONE)

\* what a client can see: contents bottom to top, length, emptiness
StackObs(k) == [items |-> k.s, len |-> Len(k.s), empty |-> B2I(k.s = <<>>)]

StackObsBad(k, o) ==
  FirstBad(<< <<o.len = Len(k.s), "length differs from the number of items held">>,
              <<o.empty = B2I(k.s = <<>>), "emptiness flag is wrong">>,
              <<o.items = k.s, "contents/order differ">> >>)
=============================================================================
