------------------------------ MODULE Faults_MC ------------------------------
(* Histories of calls of which each may meet an exception at any consultation.       *)
EXTENDS ModelBase, Faults
CONSTANTS Kind, Vals, MaxLen, MaxN
V1 == {1, 2, NONE}
Seqs(V) == UNION { [1 .. n -> V] : n \in 1 .. MaxLen }
Distinct(s) == Cardinality(Rng(s)) = Len(s)
Starts == CASE Kind = "array" -> Seqs(Vals)
            [] Kind = "tree" -> { s \in Seqs(1 .. MaxLen) : Distinct(s) }
            [] Kind \in {"queue", "heap"} -> { [j \in Idx(s) |-> 1000 * s[j] + j] : s \in Seqs(Vals) }
            [] Kind = "fold" -> Seqs(Vals)
            [] Kind = "graph" -> { SetToSortSeq(E, <) : E \in SUBSET { 10 * u + w : u, w \in 1 .. MaxLen } }
\* a tree is modelled as its keys alone: a chain
Shape(s) == CASE Kind = "tree" -> LET q == SetToSortSeq(Rng(s), <) IN q \o q
              [] Kind = "heap" -> SortSeq(s, <)
              [] OTHER -> s
MC_Inits == { <<[kind |-> Kind, s |-> s], [kind |-> Kind, s |-> Shape(s)]>> : s \in Starts }
Full(s) == \A j \in Idx(s) : s[j] # NONE
Args(k) ==
  LET s == k.s n == Len(s) IN
  CASE Kind = "array" -> { <<"sort", lo, hi>> : lo \in 0 .. n - 1, hi \in 0 .. n - 1 } \cup { <<"ordered", 0, 0>> }
                         \cup (IF Full(s) THEN { <<"next", 0, 0>>, <<"prev", 0, 0>> } ELSE {})
                         \cup (IF Full(s) /\ OrderedSeq("asc", s) THEN { <<o, v, 0>> : o \in {"binary", "jump", "lower", "upper"}, v \in 1 .. 2 } ELSE {})
    [] Kind = "tree" -> { <<o, v, 0>> : o \in {"search", "lower", "upper", "rank", "insert", "put", "del"}, v \in 1 .. MaxLen + 1 }
                        \cup { <<o, u, v>> : o \in {"lca1", "lca2"}, u \in Rng(s), v \in Rng(s) }
    [] Kind = "queue" -> IF s = <<>> THEN { <<"look", 0, 0>> } ELSE { <<"pop", 0, 0>>, <<"peek", 0, 0>> }
    [] Kind = "heap" -> { <<"push", 1001, 0>>, <<"push", 2002, 0>>, <<"pop", 0, 0>> }
    [] Kind = "fold" -> { <<"query", lo, hi>> : lo \in 0 .. n - 1, hi \in 0 .. n - 1 }
    [] Kind = "graph" -> { <<"visit", u, 0>> : u \in 1 .. MaxLen }
MC_Calls(c, k) == { [op |-> q[1], a |-> <<q[2], q[3], m>>] : q \in { q \in Args(k) : q[1] \in {"sort", "query"} => q[2] <= q[3] }, m \in 0 .. MaxN }
\* the generator supposes that a consultation asked to fail is reached; the real code may do without it
Wants(k, c) == [k EXCEPT !.s = CASE c.op = "sort" -> Slice(@, 0, c.a[1] - 1) \o SortSeq(Filled(Slice(@, c.a[1], c.a[2])), <)
                                                     \o [j \in 1 .. c.a[2] - c.a[1] + 1 - Len(Filled(Slice(@, c.a[1], c.a[2]))) |-> NONE] \o Slice(@, c.a[2] + 1, Len(@) - 1)
                                 [] c.op = "pop" -> IF @ = <<>> THEN @ ELSE RemoveIdx(@, Min(BestAt(@)))
                                 [] c.op \in {"insert", "put"} -> Shape(@ \o <<c.a[1]>>)
                                 [] c.op = "del" -> Shape(SetToSeq(Rng(@) \ {c.a[1]}))
                                 [] c.op = "push" -> Inserted(@, c.a[1])
                                 [] OTHER -> @]
MC_Do(k, c) == IF c.a[3] > 0 THEN Fail(k, "Fault") ELSE IF Refused(k, c.op, c.a[1], c.a[2]) # "" THEN Fail(k, Refused(k, c.op, c.a[1], c.a[2])) ELSE Out(Wants(k, c), NONE)
\* an abandoned call is one the structure allows, and never loses anything
Frame == [][ LET e == Last(h') IN
             IF last'.x # "" THEN Abandoned(st, e[1], e[2], e[3], st'.s) = ""
             ELSE IF e[1] \in {"put", "del", "insert"} THEN IsTree(st'.s)
             ELSE e[1] = "sort" => SortBad(st.s, e[2], e[3], "asc", st'.s) = "" ]_mvars
\* exceptions leave no trace: the calls that met none give what they give alone
RECURSIVE Replay(_, _)
Replay(k, q) == IF q = <<>> THEN k ELSE Replay(Wants(k, [op |-> q[1][1], a |-> Tail(q[1])]), Tail(q))
NoTrace == st = Replay([kind |-> Kind, s |-> Shape(cfg.s)], SelectSeq(h, LAMBDA e : e[4] = 0))
=============================================================================
