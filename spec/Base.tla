-------------------------------- MODULE Base --------------------------------
(* Vocabulary shared by all specifications.                                 *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt, FiniteSetsExt, Functions

NONE == -999999        \* encodes Python's None
BADV == -888888        \* a value of the wrong type was observed

Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a > b THEN a ELSE b
B2I(b) == IF b THEN 1 ELSE 0

Idx(s) == 1 .. Len(s)
Rng(s) == { s[i] : i \in Idx(s) }
Count(s, x) == Cardinality({ i \in Idx(s) : s[i] = x })
IsPerm(s, t) == Len(s) = Len(t) /\ \A x \in Rng(s) \cup Rng(t) : Count(s, x) = Count(t, x)
RemoveIdx(s, k) == SubSeq(s, 1, k - 1) \o SubSeq(s, k + 1, Len(s))
InsertIdx(s, k, x) == SubSeq(s, 1, k - 1) \o <<x>> \o SubSeq(s, k, Len(s))
NotNone(x) == x # NONE
Filled(s) == SelectSeq(s, NotNone)
SumSeq(s) == FoldSeq(LAMBDA x, y : x + y, 0, s)

\* An outcome of a call: successor abstract state, exception name ("" if none), result.
Out(st, r) == [st |-> st, x |-> "", r |-> r]
Fail(st, x) == [st |-> st, x |-> x, r |-> NONE]

\* first failing clause of a sequence of <<condition that must hold, name>>
RECURSIVE FirstBad(_)
FirstBad(cl) == IF cl = <<>> THEN ""
                ELSE IF cl[1][1] THEN FirstBad(Tail(cl)) ELSE cl[1][2]
=============================================================================
