----------------------------- MODULE DynArray_MC -----------------------------
EXTENDS ModelBase, DynArray
CONSTANTS Cfgs, Writes
MC_Inits == { <<c, DAInit(c)>> : c \in Cfgs }
MC_Calls(c, k) ==
  { [op |-> "append", a |-> <<Len(h) + 10>>] }
  \cup { [op |-> "delete", a |-> <<j>>] : j \in { x \in 0 .. 4 : x <= Len(k.cells) } }
  \cup { [op |-> "assign", a |-> <<j, 90>>] : j \in { x \in 0 .. 3 : x = 0 /\ x < Len(k.cells) /\ k.cells[x + 1] # NONE } }
  \* writes anywhere: into empty cells, beyond all items, of nothing
  \cup (IF Writes THEN { [op |-> "assign", a |-> <<j, x>>] : j \in { y \in {0, 1, 3, Len(k.cells) - 1} : y >= 0 /\ y < Len(k.cells) }, x \in {70 + Len(h), NONE} }
                       \cup { [op |-> "fill", a |-> <<60 + Len(h)>>] } ELSE {})
MC_Do(k, c) == DADo(k, c.op, c.a)
\* the reference behaviour is one of the allowed ones
RefAllowed == [][ LET c == Last(h') IN NextBad(st, c[1], Tail(c), st'.cells) = "" ]_mvars
\* independent characterisation: the items are the appended ones, in order, minus the deleted ones
NothingLost == [][ LET c == Last(h')
                       old == Filled(st.cells)
                       new == Filled(st'.cells) IN
                   /\ (c[1] = "fill" \/ (Len(new) >= Len(old) - 1 /\ Len(new) <= Len(old) + 1))
                   /\ (c[1] = "append" => new = Append(old, c[2]))
                   /\ (c[1] = "delete" => \/ new = old
                                          \/ \E j \in Idx(old) : new = RemoveIdx(old, j)) ]_mvars
LoadBound == [][ (Last(h')[1] \notin {"assign", "fill"} /\ st'.cells # st.cells) =>
   \/ ~Sparse(st', Len(Filled(st'.cells)), Len(st'.cells))
   \/ Len(st'.cells) <= 2 * Len(Filled(st'.cells)) + 1 ]_mvars
C1 == { [cells |-> s, p |-> f[1], q |-> f[2]] :
        s \in { <<>>, <<NONE, NONE>>, <<1, 2>>, <<1, 2, 3>>, <<1, 2, 3, 4, 5>> }, f \in { <<1, 4>>, <<3, 4>> } }
C2 == { [cells |-> s, p |-> f[1], q |-> f[2]] :
        s \in { <<>>, <<NONE, NONE>>, <<1, 2>>, <<1, 2, 3, 4, 5>> }, f \in { <<1, 8>>, <<1, 2>> } }
=============================================================================
