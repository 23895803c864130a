------------------------------- MODULE ArrayFns -------------------------------
(* Searching, order predicates, bounds, permutations and longest subsequences.   *)
(* Positions are 0-based, slices inclusive at both ends unless stated.            *)
EXTENDS Base
Prec(ord, x, y) == IF ord = "desc" THEN x > y ELSE x < y      \* x strictly before y
Slice(s, lo, hi) == SubSeq(s, lo + 1, hi + 1)
OrderedSeq(ord, s) == \A j \in 1 .. Len(s) - 1 : ~Prec(ord, s[j + 1], s[j])

\* ---- searching
Hits(s, lo, hi, v) == { p \in lo .. hi : s[p + 1] = v }
SearchBad(op, s, lo, hi, v, r) ==
  LET hs == Hits(s, lo, hi, v) IN
  IF hs = {} THEN (IF r = NONE THEN "" ELSE "a position was returned for an absent value")
  ELSE IF r \notin hs THEN "the position returned does not hold the value"
  ELSE IF op = "linear" /\ r # Min(hs) THEN "not the first position" ELSE ""

\* ---- order check: neighbouring empty cells are not compared
IsOrdered(ord, s, lo, hi) ==
  \A p \in lo + 1 .. hi : (s[p] # NONE /\ s[p + 1] # NONE) => ~Prec(ord, s[p + 1], s[p])
\* ---- bounds: lo .. hi - 1, hi exclusive
LowerBound(ord, s, lo, hi, v) == Min({ p \in lo .. hi - 1 : ~Prec(ord, s[p + 1], v) } \cup {hi})
UpperBound(ord, s, lo, hi, v) == Min({ p \in lo .. hi - 1 : Prec(ord, v, s[p + 1]) } \cup {hi})

\* ---- permutations
LexLess(ord, s, t) == \E k \in Idx(s) : SubSeq(s, 1, k - 1) = SubSeq(t, 1, k - 1) /\ Prec(ord, s[k], t[k])
Weak(ord, x, y) == ~Prec(ord, y, x)
RevOrd(ord) == IF ord = "desc" THEN "asc" ELSE "desc"
SortedIn(ord, s) == \A j \in 1 .. Len(s) - 1 : Weak(ord, s[j], s[j + 1])
\* t is the least rearrangement of s above s: they first differ at the last k where s can still grow
IsNext(ord, s, t) ==
  /\ IsPerm(s, t)
  /\ \E k \in Idx(s) :
       /\ SubSeq(s, 1, k - 1) = SubSeq(t, 1, k - 1)
       /\ SortedIn(RevOrd(ord), SubSeq(s, k + 1, Len(s)))            \* s cannot grow after k
       /\ Prec(ord, s[k], t[k])
       /\ ~\E j \in k + 1 .. Len(s) : Prec(ord, s[k], s[j]) /\ Prec(ord, s[j], t[k])
       /\ SortedIn(ord, SubSeq(t, k + 1, Len(t)))
PermBad(op, ord0, s, lo, hi, r, out) ==
  LET ord == IF op = "next" THEN ord0 ELSE RevOrd(ord0)
      si == Slice(s, lo, hi)
      last == SortedIn(RevOrd(ord), si) IN
  IF r # B2I(~last) THEN "the reported success is wrong"
  ELSE IF last THEN (IF IsPerm(si, out) /\ SortedIn(ord, out) THEN "" ELSE "not the first arrangement")
  ELSE IF IsNext(ord, si, out) THEN "" ELSE "not the adjacent arrangement"

\* ---- subsequences
RECURSIVE IsSubseq(_, _)
IsSubseq(s, t) == IF s = <<>> THEN TRUE ELSE IF t = <<>> THEN FALSE
                  ELSE IF Head(s) = Head(t) THEN IsSubseq(Tail(s), Tail(t)) ELSE IsSubseq(s, Tail(t))
\* longest strictly increasing subsequence: L[j] ends at position j
RECURSIVE LisTab(_, _)
LisTab(s, tab) == LET j == Len(tab) + 1 IN
  IF j > Len(s) THEN tab
  ELSE LisTab(s, Append(tab, 1 + Max({0} \cup { tab[q] : q \in { q \in 1 .. j - 1 : s[q] < s[j] } })))
LisLen(s) == Max({0} \cup Rng(LisTab(s, <<>>)))
LisBad(s, out) ==
  FirstBad(<< <<\A j \in 1 .. Len(out) - 1 : out[j] < out[j + 1], "the result is not increasing">>,
              <<IsSubseq(out, s), "the result is not a subsequence">>,
              <<Len(out) = LisLen(s), "a longer increasing subsequence exists">> >>)
\* longest common subsequence, row by row: row[j + 1] for the first j items of t
RECURSIVE LcsRow(_, _, _, _), LcsRows(_, _, _)
LcsRow(x, t, prev, row) == LET j == Len(row) IN
  IF j > Len(t) THEN row
  ELSE LcsRow(x, t, prev, Append(row, IF t[j] = x THEN prev[j] + 1 ELSE Max2(prev[j + 1], row[j])))
LcsRows(s, t, prev) == IF s = <<>> THEN prev ELSE LcsRows(Tail(s), t, LcsRow(Head(s), t, prev, <<0>>))
LcsLen(s, t) == Last(LcsRows(s, t, [j \in 1 .. Len(t) + 1 |-> 0]))
LcsBad(s, t, out) ==
  FirstBad(<< <<IsSubseq(out, s) /\ IsSubseq(out, t), "the result is not a common subsequence">>,
              <<Len(out) = LcsLen(s, t), "a longer common subsequence exists">> >>)
=============================================================================
