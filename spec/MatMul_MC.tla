------------------------------- MODULE MatMul_MC -------------------------------
EXTENDS ModelBase, MatMul
CONSTANTS Dims, Vals
VA == {-1, 2}
VB == {-1, 0, 2}
Ms(r, c) == [1 .. r -> [1 .. c -> Vals]]
MC_Inits == UNION { { <<[l |-> a], a>> : a \in Ms(r, c) } : r \in Dims, c \in Dims }
Calls == UNION { { [op |-> "mul", a |-> <<b>>] : b \in Ms(r, c) } : r \in Dims, c \in Dims }
MC_Calls(c, k) == Calls
MC_Do(k, c) == Multiply(k, c.a[1])
\* compatible shapes give a product of the outer shape, and identity is neutral
Id(n) == [r \in 1 .. n |-> [c \in 1 .. n |-> IF r = c THEN 1 ELSE 0]]
ProductOK == (h # <<>> /\ last.x = "") =>
  LET a == cfg.l  b == h[1][2] IN
  /\ Rows(last.r) = Rows(a) /\ Cols(last.r) = Cols(b)
  /\ Product(a, Id(Cols(a))) = a /\ Product(Id(Rows(a)), a) = a
=============================================================================
