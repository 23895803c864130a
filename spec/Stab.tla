--------------------------------- MODULE Stab ---------------------------------
(* Stabbing queries: which closed intervals contain a point.  An interval is a    *)
(* pair of ends, smaller first; several may be equal.                             *)
EXTENDS Base
\* a collection of intervals with these numbers of ends (0: not a collection at all)
MakeError(ns) == IF \A j \in Idx(ns) : ns[j] = 2 THEN "" ELSE "ValueError"
Hit(ivs, x) == { j \in Idx(ivs) : ivs[j][1] <= x /\ x <= ivs[j][2] }
\* r: the reported intervals, a list of pairs, as a bag
SameBag(s, t) == Len(s) = Len(t) /\ \A e \in Rng(s) : Count(s, e) = Count(t, e)
Expected(ivs, x) == LET q == SetToSeq(Hit(ivs, x)) IN [j \in Idx(q) |-> ivs[q[j]]]
=============================================================================
