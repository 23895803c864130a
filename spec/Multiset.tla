------------------------------- MODULE Multiset -------------------------------
(* s is a function from held elements to their multiplicity, kept as a set of     *)
(* <<element, count>> with positive counts.                                       *)
EXTENDS Base
Held(s) == { e[1] : e \in s }
Mult(s, x) == IF x \in Held(s) THEN (CHOOSE e \in s : e[1] = x)[2] ELSE 0
Total(s) == FoldSet(LAMBDA e, n : e[2] + n, 0, s)
Upd(s, x, n) == { e \in s : e[1] # x } \cup (IF n > 0 THEN {<<x, n>>} ELSE {})
Least(ks) == IF ks = {} THEN NONE ELSE Min(ks)
MSOut(s, op, a) ==
  CASE op = "add" -> Out(Upd(s, a[1], Mult(s, a[1]) + 1), NONE)
    [] op = "remove" -> Out(Upd(s, a[1], Mult(s, a[1]) - 1), NONE)
    [] op = "init" -> Out(s, NONE)
=============================================================================
