------------------------------- MODULE Typed_MC -------------------------------
EXTENDS ModelBase, Typed
CONSTANTS MKinds, MItems
Items == { <<"int", 3>>, <<"float", 3>>, <<"str", 7>>, <<"str", 1003>>, <<"str", 2000>>, <<"obj", 0>> }
Few == { <<"int", 3>>, <<"float", 3>>, <<"str", 7>>, <<"str", 2000>> }
Cfg(k, be, t, s) == [k |-> k, be |-> be, t |-> t, n |-> 2, items |-> s]
MC_Inits == { <<c, TyInit(c)>> : c \in
  { Cfg(k, be, t, <<>>) : k \in {"one", "multi"} \cap MKinds, be \in {"py", "cpp"}, t \in {"int", "float", "str"} } \cup
  { Cfg(k, be, "int", s) : k \in {"dyn", "stack", "queue"} \cap MKinds, be \in {"py", "cpp"}, s \in { <<>>, <<<<"int", 1>>>> } } }
MC_Calls(c, k) ==
  LET put(o) == { [op |-> o, a |-> <<x>>] : x \in MItems }
      cells == { [op |-> "set", a |-> <<0, x>>] : x \in MItems \cup {Empty} } \cup { [op |-> "fill", a |-> <<x>>] : x \in MItems }
      \* anything converts to a string, but what an object looks like is not specified, and everything is an object
      plain == c.k \in {"stack", "queue"} \/ k.t = "str"
      allowed(call) == ~plain \/ call.op \in {"new", "times"} \/ call.a = <<>> \/ Last(call.a)[1] # "obj"
  IN { call \in
       CASE c.k = "one" -> cells \cup { [op |-> "new", a |-> <<"int", <<x, y>>>>] : x, y \in {<<"int", 3>>, <<"float", 5>>, <<"str", 2000>>} }
                                 \cup { [op |-> "times", a |-> <<"int", 2, x>>] : x \in {<<"int", 3>>, <<"float", 5>>, <<"str", 2000>>} }
         [] c.k = "multi" -> cells
         [] c.k = "dyn" -> put("put") \cup { [op |-> "set", a |-> <<j - 1, x>>] : j \in Idx(k.s), x \in MItems }
         [] c.k = "stack" -> put("put") \cup { [op |-> "take", a |-> <<>>] }
         [] c.k = "queue" -> put("put") \cup put("putleft") \cup { [op |-> o, a |-> <<>>] : o \in {"take", "takeleft"} } : allowed(call) }
MC_Do(k, c) == TyDo(cfg, k, c.op, c.a)
\* everything held is of the type
Typed == \A j \in Idx(st.s) : st.s[j] = Empty \/ st.s[j][1] = st.t
\* a refused call changes nothing
Refused == [][ last'.x # "" => st' = st ]_mvars
\* putting an item in leaves those already held as they are, and taking one out the others
Others == [][ (Len(h') > Len(h) /\ Last(h')[1] \in {"put", "take"} /\ last'.x = "") =>
                \A j \in Idx(st.s) \cap Idx(st'.s) : st'.s[j] = st.s[j] ]_mvars
\* the type of what is held never changes while something is held
Stays == [][ (st.s # <<>> /\ Last(h')[1] \notin {"new", "times"}) => st'.t = st.t ]_mvars
=============================================================================
