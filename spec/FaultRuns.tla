------------------------------ MODULE FaultRuns ------------------------------
(* Sorting step by step, with a comparator that may answer anything or raise at any  *)
(* consultation: by swapping, by moving a hole (insertion, shell), by merging.        *)
(* Whatever it does, an abandoned sort has lost nothing.                              *)
EXTENDS Base
CONSTANTS Way, Vals, N
VARIABLES orig, cells, pc, held, hole, buf
vars == <<orig, cells, pc, held, hole, buf>>
None == 0
Init == /\ orig \in [1 .. N -> Vals]
        /\ cells = orig /\ pc = "run" /\ held = None /\ hole = 0 /\ buf = <<>>
Mid == N \div 2
\* swapping: any two cells are compared, and exchanged or not
Swap == /\ Way = "swap" /\ pc = "run"
        /\ \E p, q \in 1 .. N :
             /\ p < q
             /\ \/ cells' = [cells EXCEPT ![p] = cells[q], ![q] = cells[p]] /\ pc' = pc
                \/ UNCHANGED cells /\ pc' \in {"run", "failed"}
        /\ UNCHANGED <<orig, held, hole, buf>>
\* moving a hole: the item taken out is put back wherever the hole has got to
Take == /\ Way = "hole" /\ pc = "run" /\ \E p \in 2 .. N : held' = cells[p] /\ hole' = p
        /\ pc' = "shift" /\ UNCHANGED <<orig, cells, buf>>
Shift == /\ pc = "shift" /\ hole > 1
         /\ cells' = [cells EXCEPT ![hole] = cells[hole - 1]] /\ hole' = hole - 1
         /\ UNCHANGED <<orig, pc, held, buf>>
Put == /\ pc = "shift" /\ cells' = [cells EXCEPT ![hole] = held] /\ held' = None
       /\ pc' \in {"run", "failed"} /\ UNCHANGED <<orig, hole, buf>>
\* merging two halves on the side; the cells are written when all is settled
Merge == /\ Way = "merge" /\ pc = "run"
         /\ \E a \in {0, 1} : LET u == IF buf = <<>> THEN <<0, 0, <<>>>> ELSE buf IN
              /\ IF a = 0 THEN u[1] < Mid ELSE u[2] < N - Mid
              /\ buf' = IF a = 0 THEN <<u[1] + 1, u[2], Append(u[3], cells[u[1] + 1])>>
                        ELSE <<u[1], u[2] + 1, Append(u[3], cells[Mid + u[2] + 1])>>
         /\ UNCHANGED <<orig, cells, pc, held, hole>>
MergeFails == Way = "merge" /\ pc = "run" /\ pc' = "failed" /\ UNCHANGED <<orig, cells, held, hole, buf>>
Write == /\ Way = "merge" /\ pc = "run" /\ buf # <<>> /\ Len(buf[3]) = N
         /\ cells' = buf[3] /\ pc' = "done" /\ UNCHANGED <<orig, held, hole, buf>>
Next == Swap \/ Take \/ Shift \/ Put \/ Merge \/ MergeFails \/ Write
Spec == Init /\ [][Next]_vars
NothingLost == pc # "shift" => IsPerm(orig, cells)
\* in between, what is missing is what is held, and the hole is where it can be put back
Whole == pc = "shift" => IsPerm(orig, [cells EXCEPT ![hole] = held])
=============================================================================
