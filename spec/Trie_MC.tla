------------------------------- MODULE Trie_MC -------------------------------
(* The node structure: a prefix-closed set of paths, some of them terminal.       *)
(* Deletion prunes the path upwards while it has no children and is not terminal.  *)
EXTENDS ModelBase, Trie
CONSTANTS Words, Ops
W1 == { <<1>>, <<1, 1>>, <<1, 2>>, <<2>> }
W2 == { <<>>, <<1>>, <<1, 1>>, <<1, 1, 1>>, <<1, 1, 2>>, <<2, 1>> }
PrefSet(s) == { SubSeq(s, 1, n) : n \in 0 .. Len(s) }
T0 == [n |-> {<<>>}, t |-> {}]
HasChild(t, p) == \E q \in t.n : Len(q) = Len(p) + 1 /\ IsPre(p, q)
RECURSIVE Prune(_, _)
Prune(t, p) == IF p = <<>> \/ HasChild(t, p) \/ p \in t.t THEN t
               ELSE Prune([t EXCEPT !.n = @ \ {p}], SubSeq(p, 1, Len(p) - 1))
NDo(t, c) == CASE c.op = "insert" -> [n |-> t.n \cup PrefSet(c.a[1]), t |-> t.t \cup {c.a[1]}]
               [] c.op = "delete" -> IF c.a[1] \notin t.t THEN t ELSE Prune([t EXCEPT !.t = @ \ {c.a[1]}], c.a[1])
               [] OTHER -> t
MC_Inits == { <<[z |-> 0], [k |-> {}, t |-> T0]>> }
MC_Calls(c, s) == { [op |-> o, a |-> <<w>>] : o \in Ops, w \in Words }
MC_Do(s, c) == LET o == TOut(s.k, c.op, c.a) IN [st |-> [k |-> o.st, t |-> NDo(s.t, c)], x |-> o.x, r |-> o.r]
\* exactly the prefixes of stored strings have nodes: nothing is left behind
Refines == st.t.t = st.k /\ st.t.n = {<<>>} \cup UNION { PrefSet(w) : w \in st.k }
=============================================================================
