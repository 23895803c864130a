-------------------------------- MODULE MatMul --------------------------------
(* Matrices are sequences of rows.                                               *)
EXTENDS Base
Rows(m) == Len(m)
Cols(m) == Len(m[1])
Entry(a, b, r, c) == LET n == Cols(a) IN SumSeq([k \in 1 .. n |-> a[r][k] * b[k][c]])
Product(a, b) == [r \in 1 .. Rows(a) |-> [c \in 1 .. Cols(b) |-> Entry(a, b, r, c)]]
Multiply(a, b) == IF Cols(a) # Rows(b) THEN Fail(0, "ValueError") ELSE Out(0, Product(a, b))
=============================================================================
