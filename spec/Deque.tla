-------------------------------- MODULE Deque --------------------------------
(* FIFO queue and double ended queue.  State: items front first; `de' tells    *)
(* whether the queue was created double ended (appendleft/pop allowed).        *)
EXTENDS Base
DequeInit(c) == [de |-> c.de, s |-> c.items]
DequeDo(k, op, a) ==
  CASE op = "append" -> Out([k EXCEPT !.s = Append(@, a[1])], NONE)
    [] op = "appendleft" -> IF ~k.de THEN Fail(k, "NotImplementedError")
                            ELSE Out([k EXCEPT !.s = <<a[1]>> \o @], NONE)
    [] op = "popleft" -> IF k.s = <<>> THEN Fail(k, "IndexError")
                         ELSE Out([k EXCEPT !.s = Tail(@)], Head(k.s))
    [] op = "pop" -> IF ~k.de THEN Fail(k, "NotImplementedError")
                     ELSE IF k.s = <<>> THEN Fail(k, "IndexError")
                     ELSE Out([k EXCEPT !.s = Front(@)], Last(k.s))
    [] op = "init" -> Out(k, NONE)
DequeObsBad(k, o) ==
  FirstBad(<< <<o.len = Len(k.s), "length differs from the number of items held">>,
              <<o.empty = B2I(k.s = <<>>), "emptiness flag is wrong">>,
              <<o.items = k.s, "contents/order differ">>,
              <<o.front = (IF k.s = <<>> THEN NONE ELSE Head(k.s)), "front is not the oldest item">>,
              <<o.rear = (IF k.s = <<>> THEN NONE ELSE Last(k.s)), "rear is not the newest item">> >>)
=============================================================================
