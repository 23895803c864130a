--------------------------------- MODULE Print ---------------------------------
(* What is printed is what is held.  A printed form is read as a literal (nested  *)
(* sequences of numbers, NONE for None, <<>> for an empty place) and judged by    *)
(* what it denotes: the contents of a container in order, the cells of an array,  *)
(* a binary tree given by entries that refer to one another by position, the      *)
(* levels of a sparse table, the nodes of a segment tree.                         *)
EXTENDS Base

(* ---- contents.  c.k: the kind; s: a sequence (of items or cells) or a set of <<key, data>> ---- *)
PInit(c) == CASE c.k \in {"tree", "heap"} -> {}
              [] c.k = "segtree" -> [a |-> c.a, built |-> FALSE]
              [] OTHER -> c.a
PDo(c, s, op, a) ==
  CASE op \in {"init", "look"} -> Out(s, NONE)
    [] op = "set" -> Out([s EXCEPT ![a[1] + 1] = a[2]], NONE)
    [] op = "fill" -> Out([j \in Idx(s) |-> a[1]], NONE)
    [] op = "put" -> Out(Append(s, a[1]), NONE)
    [] op = "putleft" -> Out(<<a[1]>> \o s, NONE)
    [] op = "take" -> Out(IF s = <<>> THEN s ELSE Front(s), NONE)
    [] op = "takeleft" -> Out(IF s = <<>> THEN s ELSE Tail(s), NONE)
    [] op = "insert" -> Out({ e \in s : e[1] # a[1] } \cup {<<a[1], a[2]>>}, NONE)
    [] op = "delete" -> Out({ e \in s : e[1] # a[1] }, NONE)
    [] op = "extract" -> IF s = {} THEN Fail(s, "IndexError")
                         ELSE Out({ e \in s : \E d \in s : IF c.f = "min" THEN d[1] < e[1] ELSE d[1] > e[1] }, NONE)
    [] op = "build" -> Out([s EXCEPT !.built = TRUE], NONE)
    [] op = "update" -> IF s.built THEN Out([s EXCEPT !.a[a[1] + 1] = a[2]], NONE) ELSE Fail(s, "ValueError")

(* ---- entries that refer to one another: <<left, .., right>>, positions from 0, or from the end when negative ---- *)
Ref(o, x) == IF x = NONE THEN 0 ELSE IF x < 0 THEN Len(o) + x + 1 ELSE x + 1
Used(o) == { j \in Idx(o) : o[j] # <<>> }
L(o, j) == Ref(o, o[j][1])
R(o, j) == Ref(o, Last(o[j]))
Roots(o) == { j \in Used(o) : \A i \in Used(o) : j \notin {L(o, i), R(o, i)} }
WellFormed(o) ==
  /\ Cardinality(Roots(o)) = 1
  /\ \A j \in Used(o) : {L(o, j), R(o, j)} \subseteq Used(o) \cup {0} /\ (L(o, j) # 0 => L(o, j) # R(o, j))
  /\ \A i, j \in Used(o) : i # j => {L(o, i), R(o, i)} \cap {L(o, j), R(o, j)} \subseteq {0}
RECURSIVE InOrder(_, _)
InOrder(o, j) == IF j = 0 THEN <<>> ELSE InOrder(o, L(o, j)) \o <<j>> \o InOrder(o, R(o, j))
Sorted(s) == SetToSortSeq(s, LAMBDA x, y : x[1] < y[1])
\* <<left, key, data, right>>, with more between key and data for some kinds of tree
KeyData(e) == <<e[2], e[Len(e) - 1]>>
TreeOK(s, o) ==
  IF s = {} THEN \A j \in Used(o) : o[j][2] = NONE
  ELSE /\ WellFormed(o)
       /\ LET w == InOrder(o, CHOOSE r \in Roots(o) : TRUE)
          IN Len(w) = Cardinality(Used(o)) /\ [j \in Idx(w) |-> KeyData(o[w[j]])] = Sorted(s)

(* ---- a heap: entries <<key, data, positions of the children>>, the top first ---- *)
HeapOK(f, s, o) ==
  /\ Len(o) = Cardinality(s) /\ { <<e[1], e[2]>> : e \in Rng(o) } = s
  /\ \A j \in Idx(o) \ {1} : Cardinality({ p \in Idx(o) \X (1 .. Len(o)) :
        p[2] <= Len(o[p[1]][3]) /\ o[p[1]][3][p[2]] + 1 = j }) = 1
  /\ \A j \in Idx(o) : \A x \in Rng(o[j][3]) :
        x \in 1 .. Len(o) - 1 /\ (IF f = "min" THEN o[j][1] < o[x + 1][1] ELSE o[j][1] > o[x + 1][1])

(* ---- tables over an array ---- *)
Apply(f, s) == IF f = "sum" THEN SumSeq(s) ELSE IF f = "min" THEN Min(Rng(s)) ELSE Max(Rng(s))
Pow(j) == 2 ^ j
LevelsOf(n) == CHOOSE j \in 0 .. n : Pow(j) <= n /\ n < Pow(j + 1)
SparseRow(f, a, i) == [j \in 1 .. LevelsOf(Len(a)) + 1 |->
  IF i + Pow(j - 1) - 1 <= Len(a) THEN Apply(f, SubSeq(a, i, i + Pow(j - 1) - 1)) ELSE NONE]
SparseOK(f, a, o) == o = [i \in Idx(a) |-> SparseRow(f, a, i)]
RECURSIVE SegPrint(_, _, _, _)
SegPrint(f, a, lo, hi) ==
  <<<<<<lo, hi>>, Apply(f, SubSeq(a, lo + 1, hi + 1))>>>> \o
  IF lo = hi THEN <<<<>>, <<>>>>
  ELSE SegPrint(f, a, lo, (lo + hi) \div 2) \o SegPrint(f, a, (lo + hi) \div 2 + 1, hi)
SegOK(f, s, o) == o = IF s.built THEN SegPrint(f, s.a, 0, Len(s.a) - 1) ELSE <<<<>>>>

(* ---- intervals: entries <<left, <<closed, lo, hi, closed>>, intervals kept here, right>> ---- *)
\* points and bounds doubled, so that points between the bounds are numbers too
In(v, p) == (2 * v[2] < p \/ (v[1] = 1 /\ 2 * v[2] = p)) /\ (p < 2 * v[3] \/ (v[4] = 1 /\ p = 2 * v[3]))
Kept(e) == [j \in Idx(e[3]) |-> <<e[3][j][2][2], e[3][j][2][3]>>]
RECURSIVE Stabbed(_, _, _)
Stabbed(o, j, p) == IF j = 0 \/ ~In(o[j][2], p) THEN <<>>
                    ELSE Kept(o[j]) \o Stabbed(o, L(o, j), p) \o Stabbed(o, R(o, j), p)
Spots(s) == LET v == { iv[1] : iv \in Rng(s) } \cup { iv[2] : iv \in Rng(s) }
            IN UNION { { 2 * x - 1, 2 * x, 2 * x + 1 } : x \in v }
StabOK(s, o) ==
  LET top == CHOOSE j \in Used(o) : \A i \in Used(o) : i # j => j \notin {L(o, i), R(o, i)}
      tops == { j \in Used(o) : \A i \in Used(o) : i # j => j \notin {L(o, i), R(o, i)} }
  IN s = <<>> \/ (Cardinality(tops) = 1 /\
     \A p \in Spots(s) : IsPerm(Stabbed(o, top, p), SelectSeq(s, LAMBDA iv : 2 * iv[1] <= p /\ p <= 2 * iv[2])))

Denotes(c, s, o) ==
  CASE c.k = "cells" -> o = s
    [] c.k = "items" -> Filled(o) = s
    [] c.k = "nodes" -> [j \in Idx(o) |-> o[j][1]] = s
    [] c.k = "tree" -> TreeOK(s, o)
    [] c.k = "heap" -> HeapOK(c.f, s, o)
    [] c.k = "mary" -> o = <<s>>
    [] c.k = "sparse" -> SparseOK(c.f, s, o)
    [] c.k = "segtree" -> SegOK(c.f, s, o)
    [] c.k = "stab" -> StabOK(s, o)
=============================================================================
