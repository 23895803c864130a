------------------------------- MODULE SkipList -------------------------------
(* Skip list.  State: the set of held <<key, data>> pairs (data are distinct).  *)
(* The tower heights are random, so the levels are only constrained: any        *)
(* observation of levels allowed by LevelsBad is a behaviour.                   *)
EXTENDS Base
SLInit(c) == {}
KeysOf(k) == { x[1] : x \in k }
\* outcomes: extracting one of several items with the same key may return any of them
SLOuts(k, op, a) ==
  CASE op = "insert" -> { Out(k \cup { <<a[1], a[2]>> }, NONE) }
    [] op = "search" -> { Out(k, B2I(a[1] \in KeysOf(k))) }
    [] op = "extract" -> IF a[1] \in KeysOf(k) THEN { Out(k \ {x}, x) : x \in { y \in k : y[1] = a[1] } }
                         ELSE { Fail(k, "KeyError") }
    [] op = "init" -> { Out(k, NONE) }
Ascending(s) == \A j \in 1 .. Len(s) - 1 : s[j] <= s[j + 1]
\* o.levels: the keys of each level, bottom first; o.items: bottom level with data
SLObsBad(k, o) ==
  FirstBad(<< <<Len(o.items) = Cardinality(k) /\ Rng(o.items) = k, "the bottom level does not hold exactly the inserted, not extracted items">>,
              <<o.size = Cardinality(k), "reported size">>,
              <<o.levels[1] = [j \in Idx(o.items) |-> o.items[j][1]], "bottom level">>,
              <<\A l \in Idx(o.levels) : Ascending(o.levels[l]), "a level is not in ascending order">>,
              <<\A l \in 2 .. Len(o.levels) : \A x \in Rng(o.levels[l]) : Count(o.levels[l], x) <= Count(o.levels[l - 1], x),
                "a level is not a sub-sequence of the one below">>,
              <<o.down = 1, "a tower node does not stand on a node of its own key on the level below">>,
              <<o.nlevels = Len(o.levels), "reported number of levels">>,
              <<Cardinality(KeysOf(k)) < Cardinality(k) \/ o.str = [l \in Idx(o.levels) |->
                  [j \in Idx(o.items) |-> IF o.items[j][1] \in Rng(o.levels[Len(o.levels) + 1 - l]) THEN o.items[j][1] ELSE NONE]],
                "str() does not show the levels">> >>)
=============================================================================
