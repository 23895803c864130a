--------------------------------- MODULE Text ---------------------------------
(* Occurrences of a pattern in a text, 0-based and ascending; none of an empty    *)
(* pattern (the library's convention).                                            *)
EXTENDS Base
OccursAt(t, p, j) == SubSeq(t, j + 1, j + Len(p)) = p
Occ(t, p) == IF p = <<>> THEN <<>>
             ELSE SetToSortSeq({ j \in 0 .. Len(t) - Len(p) : OccursAt(t, p, j) }, <)
=============================================================================
