------------------------------ MODULE BinHeap_MC ------------------------------
EXTENDS ModelBase, BinHeap
CONSTANTS Keys, Heaps, SumTo, Mode
MC_Inits == { <<[n |-> Heaps], BHInit([n |-> Heaps])>> }
Live(k) == { g \in Idx(k) : ~\E j \in Idx(h) : h[j][1] = "merge" /\ h[j][3] = g }
MC_Calls(c, k) ==
  { [op |-> "insert", a |-> <<g, x, Len(h) + 1>>] : g \in Live(k), x \in Keys }
  \cup { [op |-> "delmin", a |-> <<g>>] : g \in Live(k) }
  \cup { [op |-> "merge", a |-> p] : p \in { p \in Live(k) \X Live(k) : p[1] < p[2] } }
  \cup (IF Mode = "dec" THEN
        UNION { { [op |-> "decrease", a |-> <<g, p[2], 0>>] : p \in k[g] } \cup { [op |-> "delete", a |-> <<g, p[2]>>] : p \in k[g] } : g \in Live(k) }
        ELSE {})
MC_Do(k, c) == CHOOSE o \in BHOuts(k, c.op, c.a) : TRUE
Disjoint == \A g, j \in Idx(st) : g # j => st[g] \cap st[j] = {}
\* the merging algorithm on root lists is binary addition of the item counts
Bits(n) == SelectSeq([j \in 1 .. 8 |-> j - 1], LAMBDA j : (n \div 2 ^ j) % 2 = 1)
PushTree(l, ord) == IF l # <<>> /\ Last(l) = ord THEN Append(Front(l), ord + 1) ELSE Append(l, ord)
RECURSIVE MergeLists(_, _, _)
MergeLists(x, y, l) ==
  IF x = <<>> /\ y = <<>> THEN l
  ELSE IF x = <<>> THEN MergeLists(x, Tail(y), PushTree(l, y[1]))
  ELSE IF y = <<>> THEN MergeLists(Tail(x), y, PushTree(l, x[1]))
  ELSE IF x[1] = y[1] THEN MergeLists(Tail(x), Tail(y), PushTree(l, x[1] + 1))
  ELSE IF x[1] < y[1] THEN MergeLists(Tail(x), y, PushTree(l, x[1]))
  ELSE MergeLists(x, Tail(y), PushTree(l, y[1]))
MergeIsAddition == h = <<>> => \A n, m \in 0 .. SumTo : MergeLists(Bits(n), Bits(m), <<>>) = Bits(n + m)
=============================================================================
