---------------------------------- MODULE DSU ----------------------------------
(* Disjoint sets.  State: the partition (a set of sets), and for each set made    *)
(* to have a given representative since it last changed, that representative.     *)
EXTENDS Base
DInit == [part |-> {}, root |-> <<>>]          \* root: sequence of <<set, key>>
Keys(k) == UNION k.part
SetOf(k, x) == CHOOSE s \in k.part : x \in s
\* representatives the specification allows for set s
Reps(k, s) == LET f == { r \in Rng(k.root) : r[1] = s } IN IF f = {} THEN s ELSE { r[2] : r \in f }
Unpin(k, ss) == SelectSeq(k.root, LAMBDA r : r[1] \notin ss)
KeyErr(k, xs) == \E x \in xs : x \notin Keys(k)
DOut(k, op, a, r) ==        \* r: the observed result, where several are allowed
  CASE op = "init" -> Out(k, NONE)
    [] op = "make" -> IF a[1] \in Keys(k) THEN Out(k, NONE)
                      ELSE Out([k EXCEPT !.part = @ \cup {{a[1]}}], NONE)
    [] op = "union" -> IF KeyErr(k, {a[1], a[2]}) THEN Fail(k, "KeyError")
                       ELSE LET s == SetOf(k, a[1])  t == SetOf(k, a[2]) IN
                            IF s = t THEN Out(k, NONE)
                            ELSE Out([part |-> (k.part \ {s, t}) \cup {s \cup t}, root |-> Unpin(k, {s, t})], NONE)
    [] op = "find" -> IF KeyErr(k, {a[1]}) THEN Fail(k, "KeyError")
                      ELSE LET s == SetOf(k, a[1])
                               q == IF r \in Reps(k, s) THEN r ELSE CHOOSE x \in Reps(k, s) : TRUE IN
                           Out([k EXCEPT !.root = Append(Unpin(k, {s}), <<s, q>>)], q)
    [] op = "size" -> IF KeyErr(k, {a[1]}) THEN Fail(k, "KeyError") ELSE Out(k, Cardinality(SetOf(k, a[1])))
    [] op = "root" -> IF KeyErr(k, {a[1]}) THEN Fail(k, "KeyError")
                      ELSE LET s == SetOf(k, a[1]) IN
                           Out([k EXCEPT !.root = Append(Unpin(k, {s}), <<s, a[1]>>)], NONE)
    [] op = "sets" -> Out(k, r)
\* a listing: the partition as sorted lists, sorted
Ascending(s) == \A j \in 1 .. Len(s) - 1 : s[j] < s[j + 1]
ListingOK(k, l) == /\ { Rng(l[j]) : j \in Idx(l) } = k.part /\ Len(l) = Cardinality(k.part)
                   /\ \A j \in Idx(l) : Ascending(l[j])
                   /\ \A j \in 1 .. Len(l) - 1 : l[j][1] < l[j + 1][1]
\* observation: list of <<key, representative, size>> and the listing
ObsBad(k, o) ==
  FirstBad(<< <<{ t[1] : t \in Rng(o.keys) } = Keys(k), "the members are not the made elements">>,
              <<\A t \in Rng(o.keys) : t[2] \in Reps(k, SetOf(k, t[1])), "a representative is not a member (or not the one asked for)">>,
              <<\A t, u \in Rng(o.keys) : (t[2] = u[2]) = (SetOf(k, t[1]) = SetOf(k, u[1])), "representatives do not match the partition">>,
              <<\A t \in Rng(o.keys) : t[3] = Cardinality(SetOf(k, t[1])), "a set size is wrong">>,
              <<ListingOK(k, o.sets), "the listing of sets is wrong">> >>)
=============================================================================
