--------------------------------- MODULE Sort ---------------------------------
(* Sorting a slice of an array.  An input is the cells (NONE: empty), the slice  *)
(* s..e (0-based, inclusive; e < s: empty slice) and the order.                  *)
EXTENDS Base
InOrder(ord, x, y) == IF ord = "desc" THEN x >= y ELSE x <= y
Ordered(ord, s) == \A j \in 1 .. Len(s) - 1 : InOrder(ord, s[j], s[j + 1])

\* out is what sorting slice lo..hi of `in' must give
SortBad(in, lo, hi, ord, out) ==
  LET si == SubSeq(in, lo + 1, hi + 1)
      so == SubSeq(out, lo + 1, hi + 1) IN
  FirstBad(<< <<Len(out) = Len(in), "the array changed its length">>,
              <<\A j \in Idx(in) : (j < lo + 1 \/ j > hi + 1) => out[j] = in[j], "a cell outside the slice changed">>,
              <<IsPerm(Filled(si), Filled(so)), "the slice does not hold the same items">>,
              <<SubSeq(so, 1, Len(Filled(so))) = Filled(so), "an empty cell precedes an item">>,
              <<Ordered(ord, Filled(so)), "the slice is not in order">> >>)
\* sorting into a new array without empty cells (counting sort)
CopySortBad(in, out) ==
  FirstBad(<< <<IsPerm(Filled(in), out), "the result does not hold the same items">>,
              <<Ordered("asc", out), "the result is not in order">> >>)
=============================================================================
