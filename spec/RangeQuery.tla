------------------------------ MODULE RangeQuery ------------------------------
(* Range queries over an array, with or without point updates.  State: the       *)
(* current contents.  Positions are 0-based and ranges inclusive.                 *)
EXTENDS Base
RECURSIVE Gcd(_, _)
Gcd(x, y) == IF y = 0 THEN x ELSE Gcd(y, x % y)
\* composition of z -> a z + b modulo 7, written 7 a + b: associative, and neither order nor repetition is lost
Affine(x, y) == ((((x \div 7) * (y \div 7)) % 7) * 7) + ((((x \div 7) * (y % 7)) + (x % 7)) % 7)
Comb(fn, x, y) == CASE fn = "min" -> Min2(x, y) [] fn = "max" -> Max2(x, y) [] fn = "sum" -> x + y
                    [] fn = "gcd" -> Gcd(x, y) [] fn = "affine" -> Affine(x, y)
                    [] fn = "first" -> x [] fn = "last" -> y
\* func(None, x) = func((x,)) = x : NONE is neutral
CombN(fn, x, y) == IF x = NONE THEN y ELSE IF y = NONE THEN x ELSE Comb(fn, x, y)
FoldRange(fn, s) == FoldLeft(LAMBDA acc, x : CombN(fn, acc, x), NONE, s)
QueryOut(c, k, lo, hi) ==
  IF lo > hi THEN Fail(k, "ValueError")
  ELSE IF lo < 0 \/ hi >= Len(k) THEN Fail(k, "IndexError")
  ELSE Out(k, FoldRange(c.fn, SubSeq(k, lo + 1, hi + 1)))
RQOut(c, k, op, a) ==
  CASE op = "init" -> Out(k, NONE)
    [] op = "query" -> QueryOut(c, k, a[1], a[2])
    \* another one, over no items
    [] op = "empty" -> Fail(k, "ValueError")
    [] op = "update" -> Out([k EXCEPT ![a[1] + 1] = a[2]], NONE)
=============================================================================
