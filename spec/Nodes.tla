--------------------------------- MODULE Nodes ---------------------------------
(* The nodes and edges the structures are made of.  A value is <<type, n>>: an   *)
(* int, an int too big for a machine word, a float (a half, or more digits), a   *)
(* string (plain, with a quote, with a zero byte, not valid text, a name), an    *)
(* object, none.                                                                 *)
EXTENDS Base
Empty == <<"none", 0>>
N(n) == <<"int", n>>
\* what a node holds besides what it was given
Common == ("left" :> Empty) @@ ("right" :> Empty) @@ ("parent" :> Empty) @@ ("height" :> N(0)) @@ ("size" :> N(1)) @@ ("is_root" :> N(0))
Default(t) == ("data" :> Empty) @@
  CASE t \in {"tree", "cart"} -> Common
    [] t = "rb" -> Common @@ ("color" :> N(1))
    [] t \in {"bino"} -> ("parent" :> Empty) @@ ("is_root" :> N(0))
    [] t = "mary" -> ("is_root" :> N(0))
    [] t = "skip" -> ("next" :> Empty) @@ ("down" :> Empty)
    [] t = "set" -> ("parent" :> Empty) @@ ("size" :> Empty)
    [] OTHER -> <<>>
Fields(t) == CASE t = "edge" -> {"value"} [] t = "trie" -> {"char", "is_terminal"}
               [] OTHER -> DOMAIN Default(t) \cup {IF t \in {"lgraph", "mgraph"} THEN "name" ELSE "key"}
                           \cup (IF t = "cart" THEN {"priority"} ELSE IF t = "ll" THEN {"next", "prev"} ELSE {})
Settable(t) == Fields(t) \ {"height", "size", "is_root", "is_terminal", "color", "name"}
\* names are strings, also those given as numbers
NameOf(v) == IF v[1] = "int" THEN <<"digits", v[2]>> ELSE v
Given(c) == [f \in { p[1] : p \in Rng(c.f) } |-> LET v == (CHOOSE p \in Rng(c.f) : p[1] = f)[2] IN IF f = "name" THEN NameOf(v) ELSE v]
\* the neighbours of a graph node: adj is a sequence of <<name, p>>, pool[p] the data of neighbour p
NInit(c) == [f |-> [n \in Fields(c.t) |-> LET g == Given(c) @@ Default(c.t) IN IF n \in DOMAIN g THEN g[n]
                                          ELSE IF n = "is_terminal" THEN N(0) ELSE Empty],
             ch |-> c.ch, adj |-> [j \in Idx(c.adj) |-> <<c.adj[j][1], j>>], pool |-> [j \in Idx(c.adj) |-> c.adj[j][2]]]
\* the C++ edges hold machine words, doubles and text
Refused(c, v) == IF c.be = "cpp" /\ c.t = "edge"
                 THEN CASE v[1] = "big" -> "OverflowError" [] v[1] = "sur" -> "UnicodeEncodeError" [] v[1] = "obj" -> "TypeError" [] OTHER -> ""
                 ELSE ""
\* a node may be called anew; C++ nodes are called by text only and keep what they have
Unnamed(c, v) == c.be = "cpp" /\ v[1] \notin {"name", "quo", "str", "digits"}
Near(k, n) == { j \in Idx(k.adj) : k.adj[j][1] = n }
NDo(c, k, op, a) ==
  CASE op = "init" -> Out(k, NONE)
    [] op = "set" -> IF Refused(c, a[2]) # "" THEN Fail(k, Refused(c, a[2])) ELSE Out([k EXCEPT !.f[a[1]] = a[2]], NONE)
    [] op = "call" -> IF Unnamed(c, a[2]) THEN Fail(k, "TypeError") ELSE Out([k EXCEPT !.f[a[1]] = a[2]], NONE)
    [] op = "erase" -> Fail(k, "ValueError")
    [] op = "child" -> Out([k EXCEPT !.ch = @ \o a[1]], NONE)
    \* a neighbour added again gets other data
    [] op = "near" -> LET p == Near(k, a[1])
                          new == [k EXCEPT !.pool = Append(@, a[2]), !.adj = Append(SelectSeq(@, LAMBDA x : x[1] # a[1]), <<a[1], Len(k.pool) + 1>>)]
                      IN Out(IF p = {} \/ c.be = "cpp" THEN new ELSE [k EXCEPT !.pool[k.adj[Min(p)][2]] = a[2]], NONE)
    [] op = "apart" -> IF Near(k, a[1]) = {} THEN Fail(k, "ValueError")
                       ELSE Out([k EXCEPT !.adj = SelectSeq(@, LAMBDA x : x[1] # a[1])], NONE)
    \* the node that was given as a neighbour is changed
    [] op = "other" -> Out([k EXCEPT !.pool[CHOOSE j \in Idx(c.adj) : c.adj[j][1] = a[1]] = a[2]], NONE)
    \* all neighbours replaced, or none when something is not a node
    [] op = "all" -> IF \E x \in Rng(a[1]) : x[1] = "bad" THEN Fail(k, "TypeError")
                     ELSE Out([k EXCEPT !.adj = [j \in Idx(a[1]) |-> <<a[1][j][1], Len(k.pool) + j>>], !.pool = @ \o [j \in Idx(a[1]) |-> a[1][j][2]]], NONE)
    \* the caller's own list of neighbours is emptied
    [] op = "spoil" -> Out(k, NONE)
    \* the children of a trie node: ch is a sequence of <<char, child>>
    [] op = "put" -> Out([k EXCEPT !.ch = Append(SelectSeq(@, LAMBDA x : x[1] # a[1]), <<a[1], a[2]>>)], NONE)
    [] op = "get" -> LET p == { x \in Rng(k.ch) : x[1] = a[1] } IN Out(k, IF p = {} THEN NONE ELSE (CHOOSE x \in p : TRUE)[2])
    [] op = "drop" -> IF \E x \in Rng(k.ch) : x[1] = a[1] THEN Out([k EXCEPT !.ch = SelectSeq(@, LAMBDA x : x[1] # a[1])], NONE)
                      ELSE Fail(k, "KeyError")
\* what is printed
Printed(c, k) ==
  LET v(s) == [j \in Idx(s) |-> k.f[s[j]]] IN
  CASE c.t \in {"tree", "rb"} -> v(<<"left", "key", "data", "right">>)
    [] c.t = "cart" -> v(<<"left", "key", "priority", "data", "right">>)
    [] c.t \in {"bino", "mary", "ll", "skip"} -> v(<<"key", "data">>)
    [] c.t \in {"lgraph", "mgraph"} -> v(<<"name", "data">>)
    [] c.t = "edge" -> <<<<"name", 1>>, <<"name", 2>>>> \o (IF c.be = "cpp" THEN v(<<"value">>) ELSE <<>>)
    [] OTHER -> <<>>
=============================================================================
