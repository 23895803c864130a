------------------------------ MODULE LinkedList ------------------------------
(* The four linked lists.  State: the sequence of <<key, data>> items, and the  *)
(* variant (backward links / closed ring).                                      *)
EXTENDS Base

LLInit(c) == [dbl |-> c.dbl, ring |-> c.ring, s |-> <<>>]
Pos(k, j) == IF j < 0 THEN Len(k.s) + j ELSE j          \* python index -> 0-based position
ValidAt(k, j) == Pos(k, j) >= 0 /\ Pos(k, j) < Len(k.s)
\* insertion also at the end; on an empty list -1 is accepted as well
InsPos(k, j) == IF k.s = <<>> /\ j = -1 THEN 0 ELSE Pos(k, j)
ValidIns(k, j) == InsPos(k, j) >= 0 /\ InsPos(k, j) <= Len(k.s)
PutAt(k, p, x) == Out([k EXCEPT !.s = InsertIdx(@, p + 1, x)], NONE)
Extract(k, j) == IF k.s = <<>> THEN Fail(k, "ValueError")
                 ELSE IF ~ValidAt(k, j) THEN Fail(k, "IndexError")
                 ELSE Out([k EXCEPT !.s = RemoveIdx(@, Pos(k, j) + 1)], k.s[Pos(k, j) + 1])
FirstWith(s, key) == LET js == { j \in Idx(s) : s[j][1] = key } IN IF js = {} THEN -1 ELSE Min(js) - 1

LLDo(k, op, a) ==
  CASE op = "init" -> Out(k, NONE)
    [] op = "append" -> PutAt(k, Len(k.s), <<a[1], a[2]>>)
    [] op = "appendleft" -> PutAt(k, 0, <<a[1], a[2]>>)
    [] op = "insert_at" -> IF ValidIns(k, a[1]) THEN PutAt(k, InsPos(k, a[1]), <<a[2], a[3]>>) ELSE Fail(k, "IndexError")
    \* relative to the node at index a[1] (obtained by indexing, so it may fail there)
    [] op = "insert_after" -> IF ValidAt(k, a[1]) THEN PutAt(k, Pos(k, a[1]) + 1, <<a[2], a[3]>>) ELSE Fail(k, "IndexError")
    [] op = "insert_before" -> IF ValidAt(k, a[1]) THEN PutAt(k, Pos(k, a[1]), <<a[2], a[3]>>) ELSE Fail(k, "IndexError")
    [] op = "extract" -> Extract(k, a[1])
    [] op = "popleft" -> Extract(k, 0)
    [] op = "popright" -> Extract(k, -1)
    [] op = "get" -> IF ValidAt(k, a[1]) THEN Out(k, k.s[Pos(k, a[1]) + 1]) ELSE Fail(k, "IndexError")
    [] op = "search" -> Out(k, FirstWith(k.s, a[1]))

\* o.fwd: items met from the head along next; o.fend: what the last next points to ("head", "none", ...)
\* o.bwd, o.bend: the same from the tail along prev; o.tail: position of the tail node in the forward walk
LLObsBad(k, o) ==
  LET n == Len(k.s)
      stop == IF k.ring /\ n > 0 THEN "start" ELSE "none" IN
  FirstBad(<< <<o.fwd = k.s, "forward walk differs from the sequence">>,
              <<o.fend = stop, "the last node's next link does not end/close the list">>,
              <<o.tail = n - 1, "tail is not the last node">>,
              <<~k.dbl \/ o.bwd = Reverse(k.s), "backward walk differs from the reversed sequence">>,
              <<~k.dbl \/ o.bend = stop, "the first node's prev link does not end/close the list">>,
              <<o.size = n /\ o.len = n, "size differs from the number of nodes">>,
              <<o.empty = B2I(n = 0), "emptiness flag">>,
              <<o.str = [j \in 1 .. n |-> k.s[j][1]], "str() differs from the sequence">> >>)
=============================================================================
