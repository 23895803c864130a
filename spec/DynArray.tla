------------------------------- MODULE DynArray -------------------------------
(* Growing and contracting array.  State: the cells (NONE where no item is) and *)
(* the load factor lf = p/q.  The sizes chosen by growth and contraction are     *)
(* left to the implementation within the documented bounds, so an operation has  *)
(* a set of allowed successor cells; NextBad decides membership.                 *)
EXTENDS Base

DAInit(c) == [cells |-> c.cells, p |-> c.p, q |-> c.q]
LastFilled(s) == IF Filled(s) = <<>> THEN 0 ELSE Max({ j \in Idx(s) : s[j] # NONE })
Sparse(k, num, size) == num * k.q < k.p * size         \* Num(T)/Size(T) < load factor

\* d is a compacted form of the items s
Compact(d, s) == /\ Len(d) >= Len(s)
                 /\ SubSeq(d, 1, Len(s)) = s
                 /\ \A j \in Len(s) + 1 .. Len(d) : d[j] = NONE
\* after the items became `s', laid out as `kept' (cells kept in place), d must be kept or its compaction
Settled(k, kept, d) ==
  LET s == Filled(kept) IN
  IF Sparse(k, Len(s), Len(kept))
  THEN Compact(d, s) /\ Len(d) >= 2 * Len(s) /\ Len(d) <= 2 * Len(s) + 1
  ELSE d = kept
AppendBad(k, x, d) ==
  LET n == Len(k.cells)
      placed(size) == { [ [j \in 1 .. size |-> IF j <= n THEN k.cells[j] ELSE NONE] EXCEPT ![pos] = x ] :
                        pos \in LastFilled(k.cells) + 1 .. Min2(size, n + 1) }
      ok == \/ \E c \in placed(n) : Settled(k, c, d)
            \* grown: items keep their cells; how far is the implementation's choice, unless the
            \* result is so sparse that it is compacted at once
            \/ \E size \in n + 1 .. 2 * n + 2 : \E c \in placed(size) : Settled(k, c, d)
  IN IF Filled(d) # Append(Filled(k.cells), x) THEN "items/order differ from the previous items followed by the new one"
     ELSE IF ~ok THEN "items moved, or the array grew/contracted, without need" ELSE ""
DeleteBad(k, j, d) ==
  IF j < 0 \/ j >= Len(k.cells) \/ (j >= 0 /\ j < Len(k.cells) /\ k.cells[j + 1] = NONE)
  THEN IF d = k.cells THEN "" ELSE "deleting no item changed the array"
  ELSE LET kept == [k.cells EXCEPT ![j + 1] = NONE] IN
       IF Filled(d) # Filled(kept) THEN "the items left are not the previous ones without the deleted one"
       ELSE IF ~Settled(k, kept, d) THEN "items moved, or the array contracted, without need (or failed to contract)" ELSE ""
AssignBad(k, j, x, d) == IF d = [k.cells EXCEPT ![j + 1] = x] THEN "" ELSE "assignment changed another cell"

NextBad(k, op, a, d) ==
  CASE op = "append" -> AppendBad(k, a[1], d)
    [] op = "delete" -> DeleteBad(k, a[1], d)
    [] op = "assign" -> IF a[1] >= 0 /\ a[1] < Len(k.cells) THEN AssignBad(k, a[1], a[2], d)
                        ELSE IF d = k.cells THEN "" ELSE "a refused assignment changed the array"
    [] op = "fill" -> IF d = [j \in Idx(k.cells) |-> a[1]] THEN "" ELSE "filling does not put the item into every cell"
    [] op = "init" -> IF d = k.cells THEN "" ELSE "initial contents"
NextExc(k, op, a) == IF op = "assign" /\ (a[1] < 0 \/ a[1] >= Len(k.cells)) THEN "IndexError" ELSE ""

\* the reference implementation's choices (used to enumerate histories)
Ref(k, kept) == LET s == Filled(kept) IN
  IF Sparse(k, Len(s), Len(kept)) THEN s \o [j \in 1 .. Len(s) + 1 |-> NONE] ELSE kept
DADo(k, op, a) ==
  CASE op = "append" ->
         LET pos == LastFilled(k.cells) + 1
             n == Len(k.cells)
             size == IF pos > n THEN 2 * n + 1 ELSE n
         IN Out([k EXCEPT !.cells = Ref(k, [ [j \in 1 .. size |-> IF j <= n THEN k.cells[j] ELSE NONE] EXCEPT ![pos] = a[1] ])], NONE)
    [] op = "delete" -> IF a[1] < Len(k.cells) /\ k.cells[a[1] + 1] # NONE
                        THEN Out([k EXCEPT !.cells = Ref(k, [k.cells EXCEPT ![a[1] + 1] = NONE])], NONE) ELSE Out(k, NONE)
    [] op = "assign" -> IF a[1] < Len(k.cells) THEN Out([k EXCEPT !.cells[a[1] + 1] = a[2]], NONE) ELSE Fail(k, "IndexError")
    [] op = "fill" -> Out([k EXCEPT !.cells = [j \in Idx(k.cells) |-> a[1]]], NONE)
=============================================================================
