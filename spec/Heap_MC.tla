-------------------------------- MODULE Heap_MC --------------------------------
(* Besides the abstract histories, the array algorithm itself (sift up, sift down,*)
(* bottom-up build) is modelled and shown to refine the abstract heap.            *)
EXTENDS ModelBase, Heap
CONSTANTS Keys, Ds, MaxInit
Items == UNION { [1 .. n -> Keys] : n \in 0 .. MaxInit }
\* ---- the array algorithm
Up(j, d) == (j - 1) \div d                      \* 0-based parent
SwapAt(s, x, y) == [s EXCEPT ![x + 1] = s[y + 1], ![y + 1] = s[x + 1]]
RECURSIVE SiftUp(_, _, _), SiftDown(_, _, _), Build(_, _, _)
SiftUp(k, s, j) == IF j = 0 \/ ~Before(k, s[j + 1][1], s[Up(j, k.d) + 1][1]) THEN s
                   ELSE SiftUp(k, SwapAt(s, j, Up(j, k.d)), Up(j, k.d))
SiftDown(k, s, j) ==
  LET cs == Children(k.d, Len(s), j)
      t == CHOOSE m \in cs \cup {j} : \A q \in cs \cup {j} : ~Before(k, s[q + 1][1], s[m + 1][1]) IN
  IF s = <<>> \/ cs = {} \/ ~Before(k, s[t + 1][1], s[j + 1][1]) THEN s ELSE SiftDown(k, SwapAt(s, j, t), t)
Build(k, s, j) == IF j < 0 THEN s ELSE Build(k, SiftDown(k, s, j), j - 1)
ArrInsert(k, s, p) == SiftUp(k, Append(s, p), Len(s))
ArrExtract(k, s) == LET n == Len(s)
                        t == SubSeq([s EXCEPT ![1] = s[n]], 1, n - 1) IN
                    IF n = 1 THEN <<>> ELSE SiftDown(k, t, 0)
\* ---- histories; the model's array follows
CfgOf(m, d, ks) == [max |-> m, d |-> d, items |-> [j \in Idx(ks) |-> <<ks[j], 100 + j>>]]
St0(c) == LET k == HInit(c) IN [k |-> k, arr |-> IF c.items = <<>> THEN <<>> ELSE Build(k, c.items, Len(c.items) - 1)]
MC_Inits == { <<CfgOf(m, d, ks), St0(CfgOf(m, d, ks))>> : m \in BOOLEAN, d \in Ds, ks \in Items }
MC_Calls(c, s) == { [op |-> "insert", a |-> <<x, Len(h) + 1>>] : x \in Keys } \cup { [op |-> "extract", a |-> <<>>] }
MC_Do(s, c) ==
  IF c.op = "insert" THEN Out([k |-> (CHOOSE o \in HOuts(s.k, "insert", c.a) : TRUE).st, arr |-> ArrInsert(s.k, s.arr, c.a)], NONE)
  ELSE IF s.arr = <<>> THEN Fail(s, "IndexError")
  ELSE Out([k |-> [s.k EXCEPT !.bag = @ \ {s.arr[1]}], arr |-> ArrExtract(s.k, s.arr)], s.arr[1])
\* the array algorithm refines the abstract heap
Refines == LayoutBad(st.k, [lay |-> st.arr, empty |-> B2I(st.arr = <<>>),
                            kids |-> [j \in Idx(st.arr) |-> SetToSeq(Children(st.k.d, Len(st.arr), j - 1))]]) = ""
ExtractsTop == [][ (Last(h')[1] = "extract" /\ last'.x = "") => last'.r \in Tops(st.k) ]_mvars
=============================================================================
