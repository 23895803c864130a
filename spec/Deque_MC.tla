------------------------------ MODULE Deque_MC ------------------------------
EXTENDS ModelBase, Deque
\* every appended item is a fresh number, so order is observable
MC_Inits == { <<c, DequeInit(c)>> : c \in { [de |-> d, items |-> x] : d \in BOOLEAN, x \in { <<>>, <<91, 92>> } } }
Fresh == Len(h) + 1
MC_Calls(c, k) == { [op |-> "append", a |-> <<Fresh>>], [op |-> "popleft", a |-> <<>>] }
                  \cup (IF c.de \/ h = <<>> THEN { [op |-> "appendleft", a |-> <<Fresh>>], [op |-> "pop", a |-> <<>>] } ELSE {})
MC_Do(k, c) == DequeDo(k, c.op, c.a)
\* FIFO: with no operation at the other end, what is in the queue is in arrival order,
\* contiguous, and nothing is duplicated
Arrivals == cfg.items \o [ j \in 1..Len(h) |-> j ]
Fifo == (\A j \in Idx(h) : h[j][1] \in {"append", "popleft"}) =>
            \A p, q \in Idx(st.s) : p < q =>
               (\E u, v \in Idx(Arrivals) : u < v /\ Arrivals[u] = st.s[p] /\ Arrivals[v] = st.s[q])
NoDup == \A p, q \in Idx(st.s) : p # q => st.s[p] # st.s[q]
Oldest == [][ (Last(h')[1] = "popleft" /\ last'.x = "") => (st'.s = Tail(st.s) /\ last'.r = Head(st.s)) ]_mvars
=============================================================================
