--------------------------------- MODULE DSU_MC ---------------------------------
(* The forest algorithm (union by size, path splitting, make-root) is modelled     *)
(* over explicit parents and sizes and shown to refine the partition.              *)
EXTENDS ModelBase, DSU
CONSTANTS Elems, Ops
\* f: parent and size per made element
F0 == [par |-> [x \in {} |-> x], sz |-> [x \in {} |-> 0]]
RECURSIVE RootOf(_, _)
RootOf(p, x) == IF p[x] = x THEN x ELSE RootOf(p, p[x])
FMake(f, x) == IF x \in DOMAIN f.par THEN f ELSE [par |-> (x :> x) @@ f.par, sz |-> (x :> 1) @@ f.sz]
FUnion(f, x, y) ==
  LET a == RootOf(f.par, x)  b == RootOf(f.par, y)
      big == IF f.sz[a] < f.sz[b] THEN b ELSE a
      small == IF f.sz[a] < f.sz[b] THEN a ELSE b IN
  IF a = b THEN f ELSE [par |-> [f.par EXCEPT ![small] = big], sz |-> [f.sz EXCEPT ![big] = @ + f.sz[small]]]
RECURSIVE Shrink(_, _, _)
Shrink(f, x, n) == IF f.par[x] = x THEN f.sz ELSE Shrink([f EXCEPT !.sz[x] = @ - n], f.par[x], n)
FRoot(f, x) ==
  IF f.par[x] = x THEN f
  ELSE LET r == RootOf(f.par, x)  sz == Shrink([f EXCEPT !.sz[x] = @], f.par[x], f.sz[x]) IN
       [par |-> [f.par EXCEPT ![r] = x, ![x] = x], sz |-> [sz EXCEPT ![r] = @ - f.sz[x], ![x] = f.sz[r]]]
MC_Inits == { <<[z |-> 0], [k |-> DInit, f |-> F0]>> }
MC_Calls(c, s) == { [op |-> o, a |-> <<x>>] : o \in Ops \ {"union"}, x \in Elems }
                  \cup (IF "union" \in Ops THEN { [op |-> "union", a |-> <<x, y>>] : x \in Elems, y \in Elems } ELSE {})
MC_Do(s, c) ==
  LET o == DOut(s.k, c.op, c.a, IF c.op = "find" /\ c.a[1] \in DOMAIN s.f.par THEN RootOf(s.f.par, c.a[1]) ELSE NONE)
      f == IF o.x # "" THEN s.f
           ELSE CASE c.op = "make" -> FMake(s.f, c.a[1])
                  [] c.op = "union" -> FUnion(s.f, c.a[1], c.a[2])
                  [] c.op = "root" -> FRoot(s.f, c.a[1])
                  [] OTHER -> s.f
  IN [st |-> [k |-> o.st, f |-> f], x |-> o.x, r |-> o.r]
Listing(k) == LET mins == SetToSortSeq({ Min(s) : s \in k.part }, <) IN
              [j \in Idx(mins) |-> SetToSortSeq(SetOf(k, mins[j]), <)]
Refines == LET ks == SetToSeq(DOMAIN st.f.par) IN
  ObsBad(st.k, [keys |-> [j \in Idx(ks) |-> <<ks[j], RootOf(st.f.par, ks[j]), st.f.sz[RootOf(st.f.par, ks[j])]>>],
                sets |-> Listing(st.k)]) = ""
\* every element's stored size is the size of its subtree
SubtreeSizes == \A x \in DOMAIN st.f.par :
  st.f.sz[x] = Cardinality({ y \in DOMAIN st.f.par : \E n \in 0 .. Cardinality(DOMAIN st.f.par) :
                 LET Up[m \in 0 .. n] == IF m = 0 THEN y ELSE st.f.par[Up[m - 1]] IN Up[n] = x })
=============================================================================
