------------------------------ MODULE SearchTree ------------------------------
(* A forest of ordered maps.  m[w] is the set of <<key, data, priority>> held by  *)
(* tree w; c.cmp = 1 for the natural order of keys, -1 for a tree created with    *)
(* the reversed comparison function.  Observed trees are node tables              *)
(* [r |-> root or 0, n |-> sequence of <<key, data, left, right, parent, x>>] with   *)
(* links given as positions, 0 for none, and x the colour (red-black), priority   *)
(* (treap, Cartesian) or balance factor (AVL).                                    *)
EXTENDS Base

Before(c, a, b) == IF c.cmp = 1 THEN a < b ELSE b < a
Keys(s) == { e[1] : e \in s }
ByKey(c, s) == SetToSortSeq(s, LAMBDA x, y : Before(c, x, y))
Put(s, k, d, p) == { e \in s : e[1] # k } \cup {<<k, d, p>>}
ERR == -777777        \* encodes a raised ValueError in a list of answers

(* ---- order statistics, bounds ---- *)
RankOf(c, s, k) == IF k \in Keys(s) THEN Cardinality({ x \in Keys(s) : Before(c, x, k) }) + 1 ELSE NONE
SelectOf(c, s, i) == IF i \in 1 .. Cardinality(s) THEN ByKey(c, Keys(s))[i] ELSE ERR
FirstOf(c, ks) == IF ks = {} THEN NONE ELSE CHOOSE k \in ks : \A z \in ks : ~Before(c, z, k)
LowerOf(c, s, p) == FirstOf(c, { k \in Keys(s) : ~Before(c, k, p) })
UpperOf(c, s, p) == FirstOf(c, { k \in Keys(s) : Before(c, p, k) })

(* ---- the shape of an observed tree ---- *)
Lft(T, i) == T.n[i][3]
Rgt(T, i) == T.n[i][4]
Par(T, i) == T.n[i][5]
Ky(T, i) == T.n[i][1]
Nds(T) == 1 .. Len(T.n)
LinksOK(T) ==
  /\ (T.r = 0) <=> (Len(T.n) = 0)
  /\ T.r # 0 => T.r \in Nds(T) /\ Par(T, T.r) = 0
  /\ \A i \in Nds(T) :
       /\ \A x \in {Lft(T, i), Rgt(T, i)} : x # 0 => x \in Nds(T) /\ Par(T, x) = i
       /\ Lft(T, i) # 0 => Lft(T, i) # Rgt(T, i)
       /\ i # T.r => Par(T, i) \in Nds(T) /\ i \in {Lft(T, Par(T, i)), Rgt(T, Par(T, i))}
RECURSIVE InOrd(_, _)
InOrd(T, i) == IF i = 0 THEN <<>> ELSE InOrd(T, Lft(T, i)) \o <<i>> \o InOrd(T, Rgt(T, i))
RECURSIVE PreOrd(_, _)
PreOrd(T, i) == IF i = 0 THEN <<>> ELSE <<i>> \o PreOrd(T, Lft(T, i)) \o PreOrd(T, Rgt(T, i))
RECURSIVE PostOrd(_, _)
PostOrd(T, i) == IF i = 0 THEN <<>> ELSE PostOrd(T, Lft(T, i)) \o PostOrd(T, Rgt(T, i)) \o <<i>>
RECURSIVE Levels(_, _)
Levels(T, q) == IF q = <<>> THEN <<>>
                ELSE q \o Levels(T, SelectSeq(FlattenSeq([j \in Idx(q) |-> <<Lft(T, q[j]), Rgt(T, q[j])>>]), LAMBDA x : x # 0))
Walk(T, o, i) == CASE o = "in_order" -> InOrd(T, i)
                   [] o = "pre_order" -> PreOrd(T, i)
                   [] o = "post_order" -> PostOrd(T, i)
                   [] o = "out_order" -> Reverse(InOrd(T, i))
                   [] o = "bfs" -> Levels(T, <<i>>)
Reached(T) == Len(InOrd(T, T.r)) = Len(T.n)
KeySeq(T, s) == [j \in Idx(s) |-> Ky(T, s[j])]
Ascends(c, s) == \A j \in 1 .. Len(s) - 1 : Before(c, s[j], s[j + 1])
SearchOrder(c, T) == Ascends(c, KeySeq(T, InOrd(T, T.r)))
At(T, k) == CHOOSE i \in Nds(T) : Ky(T, i) = k

RECURSIVE Anc(_, _)
Anc(T, i) == IF i = 0 THEN <<>> ELSE <<i>> \o Anc(T, Par(T, i))
LcaOf(T, j, k) == IF ~\E i \in Nds(T) : Ky(T, i) = j THEN ERR
                  ELSE IF ~\E i \in Nds(T) : Ky(T, i) = k THEN ERR
                  ELSE LET b == Rng(Anc(T, At(T, k))) IN
                       Ky(T, SelectSeq(Anc(T, At(T, j)), LAMBDA x : x \in b)[1])
\* node under which a search for an absent key ends; parent of a present one
RECURSIVE Above(_, _, _, _, _)
Above(c, T, k, i, p) == IF i = 0 THEN p
                        ELSE IF Ky(T, i) = k THEN p
                        ELSE Above(c, T, k, IF Before(c, k, Ky(T, i)) THEN Lft(T, i) ELSE Rgt(T, i), i)

(* ---- balance, colours, priorities ---- *)
\* <<height, every node below is height balanced and reports its balance>>
RECURSIVE Avl(_, _)
Avl(T, i) == IF i = 0 THEN <<0, TRUE, TRUE>>
             ELSE LET a == Avl(T, Lft(T, i))
                      b == Avl(T, Rgt(T, i))
                  IN <<Max2(a[1], b[1]) + 1, a[2] /\ b[2] /\ a[1] - b[1] \in {-1, 0, 1}, a[3] /\ b[3] /\ T.n[i][6] = b[1] - a[1]>>
\* <<black height, the paths agree>>; colour 1 is red
RECURSIVE Black(_, _)
Black(T, i) == IF i = 0 THEN <<0, TRUE>>
               ELSE LET a == Black(T, Lft(T, i))
                        b == Black(T, Rgt(T, i))
                    IN <<a[1] + 1 - T.n[i][6], a[2] /\ b[2] /\ a[1] = b[1]>>
Kids(T, i) == {Lft(T, i), Rgt(T, i)} \ {0}
NoRedRed(T) == \A i \in Nds(T) : T.n[i][6] \in {0, 1} /\ (T.n[i][6] = 1 => \A x \in Kids(T, i) : T.n[x][6] = 0)
HeapOrder(T) == \A i \in Nds(T) : \A x \in Kids(T, i) : T.n[i][6] <= T.n[x][6]

(* ---- calls ---- *)
\* s.c: parameters, s.m: the maps.  A joined tree is given up: its map becomes {}.
Over(c, s, t) == \E x \in Keys(s), y \in Keys(t) : ~Before(c, x, y)
SOut(s, op, a) ==
  CASE op = "insert" -> Out([s EXCEPT !.m[a[1]] = Put(@, a[2], a[3], a[4])], NONE)
    [] op = "delete" -> Out([s EXCEPT !.m[a[1]] = { e \in @ : e[1] # a[2] }], IF a[2] \in Keys(s.m[a[1]]) THEN 1 ELSE NONE)
    [] op = "search" -> Out(s, IF a[2] \in Keys(s.m[a[1]]) THEN LET e == CHOOSE z \in s.m[a[1]] : z[1] = a[2] IN <<e[1], e[2]>> ELSE <<>>)
    [] op = "odd" -> Fail(s, "TypeError")     \* a key that cannot be compared with those held
    [] op = "split" -> IF a[2] \in Keys(s.m[a[1]])
                       THEN Out([s EXCEPT !.m = Append([@ EXCEPT ![a[1]] = { e \in @ : ~Before(s.c, a[2], e[1]) }],
                                                       { e \in s.m[a[1]] : Before(s.c, a[2], e[1]) })], 1)
                       ELSE Out(s, NONE)
    [] op = "join" -> IF Over(s.c, s.m[a[1]], s.m[a[2]]) THEN Fail(s, "ValueError")
                      ELSE Out([s EXCEPT !.m = [[@ EXCEPT ![a[1]] = @ \cup s.m[a[2]]] EXCEPT ![a[2]] = {}]], NONE)
=============================================================================
