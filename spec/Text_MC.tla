-------------------------------- MODULE Text_MC --------------------------------
(* The algorithms are modelled and shown to find exactly the occurrences: KMP with *)
(* its failure function, the Z-function read off pattern, separator and text, and  *)
(* Boyer-Moore's bad-character shifts.                                             *)
EXTENDS ModelBase, Text
CONSTANTS Letters, MaxText, MaxPat
Seqs(n) == UNION { [1 .. m -> Letters] : m \in 0 .. n }
MC_Inits == { <<[t |-> t], t>> : t \in Seqs(MaxText) }
MC_Calls(c, k) == { [op |-> "find", a |-> <<p>>] : p \in Seqs(MaxPat) }
MC_Do(k, c) == Out(k, Occ(k, c.a[1]))
\* longest proper border of the first n letters
Border(p, n) == Max({ b \in 0 .. n - 1 : SubSeq(p, 1, b) = SubSeq(p, n - b + 1, n) })
RECURSIVE Kmp(_, _, _, _, _)
Kmp(t, p, j, m, acc) ==       \* m letters of p match up to position j of t
  IF m = Len(p) THEN Kmp(t, p, j, Border(p, m), Append(acc, j - m))
  ELSE IF j = Len(t) THEN acc
  ELSE IF t[j + 1] = p[m + 1] THEN Kmp(t, p, j + 1, m + 1, acc)
  ELSE IF m = 0 THEN Kmp(t, p, j + 1, 0, acc) ELSE Kmp(t, p, j, Border(p, m), acc)
\* Z of w at position j: the separator may occur in the text, so that Z may exceed the pattern
ZAt(w, j) == Max({ n \in 0 .. Len(w) - j : SubSeq(w, 1, n) = SubSeq(w, j + 1, j + n) })
ZOcc(t, p, sep) == LET w == p \o <<sep>> \o t  n == Len(p) IN
  SetToSortSeq({ j \in 0 .. Len(t) - 1 : ZAt(w, n + 1 + j) >= n }, <)
LastOf(p, x) == Max({-1} \cup { j \in 0 .. Len(p) - 1 : p[j + 1] = x })
RECURSIVE BM(_, _, _, _)
BM(t, p, s, acc) ==
  IF s > Len(t) - Len(p) THEN acc
  ELSE LET bad == { j \in 0 .. Len(p) - 1 : p[j + 1] # t[s + j + 1] } IN
       IF bad = {} THEN BM(t, p, s + (IF s + Len(p) < Len(t) THEN Len(p) - LastOf(p, t[s + Len(p) + 1]) ELSE 1), Append(acc, s))
       ELSE LET j == Max(bad) IN BM(t, p, s + Max2(1, j - LastOf(p, t[s + j + 1])), acc)
Refines == (h # <<>> /\ h[1][2] # <<>>) =>
  LET p == h[1][2]  o == Occ(st, p) IN
  /\ Kmp(st, p, 0, 0, <<>>) = o /\ BM(st, p, 0, <<>>) = o
  /\ \A sep \in Letters \cup {0} : ZOcc(st, p, sep) = o
=============================================================================
