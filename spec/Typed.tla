--------------------------------- MODULE Typed ---------------------------------
(* Containers of a declared type.  An item is <<type, value>>: an int n, a float  *)
(* h / 2, a string (the number v below 1000; the float (v - 1000) / 2 below 2000; *)
(* otherwise no number), an object that converts to nothing.  The Python backend  *)
(* converts an item of another type or refuses it, the C++ backend refuses it.    *)
(* What is refused changes nothing.                                               *)
EXTENDS Base
Empty == <<"none", 0>>
Good(x) == [x |-> "", v |-> x]
Bad(e) == [x |-> e, v |-> Empty]
Conv(be, t, x) ==
  IF x[1] = t \/ x = Empty THEN Good(x)
  ELSE IF be = "cpp" THEN Bad("TypeError")
  ELSE CASE t = "str" /\ x[1] = "int" -> Good(<<"str", x[2]>>)
         [] t = "str" /\ x[1] = "float" -> Good(<<"str", 1000 + x[2]>>)
         [] x[1] = "obj" -> Bad("TypeError")
         [] t = "int" /\ x[1] = "float" -> Good(<<"int", x[2] \div 2>>)
         [] t = "float" /\ x[1] = "int" -> Good(<<"float", 2 * x[2]>>)
         [] x[1] = "str" /\ x[2] < 1000 -> Good(IF t = "int" THEN <<"int", x[2]>> ELSE <<"float", 2 * x[2]>>)
         [] x[1] = "str" /\ x[2] < 2000 /\ t = "float" -> Good(<<"float", x[2] - 1000>>)
         [] OTHER -> Bad("ValueError")
\* several items: the first that cannot be held decides
Convs(be, t, s) == LET c == [j \in Idx(s) |-> Conv(be, t, s[j])]
                       e == { j \in Idx(s) : c[j].x # "" }
                   IN [x |-> IF e = {} THEN "" ELSE c[Min(e)].x, v |-> [j \in Idx(s) |-> c[j].v]]

(* c.k: one, multi (cells), dyn, stack, queue (items); c.be; st: [t |-> type, s |-> sequence] *)
TyInit(c) == [t |-> c.t, s |-> IF c.k \in {"one", "multi"} THEN [j \in 1 .. c.n |-> Empty] ELSE c.items]
Store(k, c, f(_)) == IF c.x # "" THEN Fail(k, c.x) ELSE Out(f(c.v), NONE)
\* the first item put into an empty stack or queue brings its type
TypeFor(c, k, x) == IF c.k \in {"stack", "queue"} /\ k.s = <<>> THEN x[1] ELSE k.t
TyDo(c, k, op, a) ==
  CASE op = "init" -> Out(k, NONE)
    [] op = "set" -> Store(k, Conv(c.be, k.t, a[2]), LAMBDA v : [k EXCEPT !.s[a[1] + 1] = v])
    [] op = "fill" -> Store(k, Conv(c.be, k.t, a[1]), LAMBDA v : [k EXCEPT !.s = [j \in Idx(k.s) |-> v]])
    \* a new array: of these items, or of n times the item
    [] op = "new" -> Store(k, Convs(c.be, a[1], a[2]), LAMBDA v : [t |-> a[1], s |-> v])
    [] op = "times" -> Store(k, Conv(c.be, a[1], a[3]), LAMBDA v : [t |-> a[1], s |-> [j \in 1 .. a[2] |-> v]])
    [] op = "put" -> LET t == TypeFor(c, k, a[1])
                     IN Store(k, Conv(c.be, t, a[1]), LAMBDA v : [t |-> t, s |-> Append(k.s, v)])
    [] op = "putleft" -> LET t == TypeFor(c, k, a[1])
                         IN Store(k, Conv(c.be, t, a[1]), LAMBDA v : [t |-> t, s |-> <<v>> \o k.s])
    [] op = "take" -> IF k.s = <<>> THEN Fail(k, "IndexError") ELSE Out([k EXCEPT !.s = Front(k.s)], Last(k.s))
    [] op = "takeleft" -> IF k.s = <<>> THEN Fail(k, "IndexError") ELSE Out([k EXCEPT !.s = Tail(k.s)], Head(k.s))
=============================================================================
