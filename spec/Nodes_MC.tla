------------------------------- MODULE Nodes_MC -------------------------------
EXTENDS ModelBase, Nodes
CONSTANTS MKinds
Py == {"tree", "cart", "rb", "bino", "mary", "ll", "skip", "set", "trie", "lgraph", "mgraph", "edge"}
Both == { <<t, "py">> : t \in Py } \cup { <<t, "cpp">> : t \in {"tree", "lgraph", "mgraph", "edge"} }
Id(t) == CASE t = "trie" -> "char" [] t = "edge" -> "value" [] t \in {"lgraph", "mgraph"} -> "name" [] OTHER -> "key"
IdVal(t) == IF t \in {"lgraph", "mgraph"} THEN <<"name", 3>> ELSE N(3)
Cfgs == { [t |-> b[1], be |-> b[2], f |-> f, ch |-> <<>>, adj |-> a] : b \in { p \in Both : p[1] \in MKinds }, f \in { <<>> }, a \in { <<>>, <<<<"n4", N(1)>>>> } }
MC_Inits == { <<c, NInit(c)>> : c \in { [c EXCEPT !.f = <<<<Id(c.t), IdVal(c.t)>>>> \o (IF c.t = "cart" THEN <<<<"priority", N(1)>>>> ELSE <<>>)
                                                        \o (IF c.t = "ll" THEN <<<<"next", N(0)>>, <<"prev", Empty>>>> ELSE <<>>)]
                                         : c \in { d \in Cfgs : d.t = "lgraph" \/ d.adj = <<>> } } }
Vals == { N(0), <<"big", 1>>, <<"flo", 3>>, <<"str", 2>>, <<"obj", 1>>, Empty }
Call(o, s) == { [op |-> o, a |-> a] : a \in s }
MC_Calls(c, k) ==
  Call("set", { <<f, v>> : f \in IF c.t = "trie" THEN {} ELSE Settable(c.t), v \in IF c.t \in {"lgraph", "mgraph", "edge"} THEN Vals ELSE {N(5), Empty} })
  \cup (IF c.t \in {"lgraph", "mgraph"} THEN Call("call", { <<"name", v>> : v \in {<<"name", 2>>, <<"quo", 1>>} \cup IF c.be = "cpp" THEN { N(1), Empty } ELSE {} }) ELSE {})
  \cup (IF c.be = "cpp" THEN CASE c.t = "lgraph" -> Call("erase", { <<f, Empty>> : f \in {"name", "data", "adjacent"} })
                                [] c.t = "mgraph" -> Call("erase", { <<f, Empty>> : f \in {"name", "data"} })
                                [] c.t = "edge" -> Call("erase", { <<"value", Empty>> }) [] OTHER -> {} ELSE {})
  \cup CASE c.t \in {"bino", "mary"} -> Call("child", { <<s>> : s \in { <<7>>, <<8, 9>> } })
         [] c.t = "trie" -> Call("put", { <<x, y>> : x \in {1, 2}, y \in {5, 6} }) \cup Call("get", { <<1>>, <<2>> }) \cup Call("drop", { <<1>>, <<2>> })
         [] c.t = "lgraph" -> Call("near", { <<"n4", N(2)>>, <<"n5", Empty>> }) \cup Call("apart", { <<"n4">>, <<"n5">> }) \cup Call("other", { <<x[1], N(8)>> : x \in Rng(c.adj) })
                            \cup IF c.be = "cpp" THEN Call("all", { <<s, 0, 0>> : s \in { <<>>, <<<<"n5", N(9)>>>>, <<<<"n4", N(9)>>, <<"bad", N(1)>>>> } }) ELSE {}
         [] OTHER -> {}
MC_Do(k, call) == NDo(cfg, k, call.op, call.a)
\* one call changes one thing: a field, the children, or the neighbours
OneThing == [][ LET g == Cardinality({ f \in DOMAIN st.f : st'.f[f] # st.f[f] })
                IN g + B2I(st'.ch # st.ch) + B2I(st'.adj # st.adj \/ st'.pool # st.pool) <= 1 ]_mvars
Refusals == [][ last'.x # "" => st' = st ]_mvars
\* what is put in is what is read and printed
Reads == [][ (Last(h')[1] = "set" /\ last'.x = "") => st'.f[Last(h')[2]] = Last(h')[3] ]_mvars
\* names identify the neighbours
Unique == \A a, b \in Idx(st.adj) : st.adj[a][1] = st.adj[b][1] => a = b
Fixed == cfg.t \in Py /\ Settable(cfg.t) \subseteq DOMAIN st.f
=============================================================================
