---------------------------- MODULE SearchTree_MC ----------------------------
(* The balancing disciplines themselves, on trees <<left, key, right, x>> with    *)
(* x a colour (red-black) or a priority (treap).  Explored with VIEW ShapeView,   *)
(* so that one shortest history is emitted for every distinct tree; the driver    *)
(* appends every possible next call to it.                                        *)
EXTENDS ModelBase, SearchTree
CONSTANTS Kind, MKeys, MPrios, All

E == <<>>
N(l, k, r, x) == <<l, k, r, x>>
L(t) == t[1]
K(t) == t[2]
R(t) == t[3]
X(t) == t[4]
RECURSIVE Flat(_)
Flat(t) == IF t = E THEN <<>> ELSE Flat(L(t)) \o <<K(t)>> \o Flat(R(t))
RECURSIVE MaxK(_)
MaxK(t) == IF R(t) = E THEN K(t) ELSE MaxK(R(t))
RECURSIVE MinK(_)
MinK(t) == IF L(t) = E THEN K(t) ELSE MinK(L(t))

(* ---- plain ---- *)
RECURSIVE BIns(_, _)
BIns(t, k) == IF t = E THEN N(E, k, E, 0)
              ELSE IF k = K(t) THEN t
              ELSE IF k < K(t) THEN N(BIns(L(t), k), K(t), R(t), X(t)) ELSE N(L(t), K(t), BIns(R(t), k), X(t))
RECURSIVE BDel(_, _)
BDel(t, k) == IF t = E THEN E
              ELSE IF k < K(t) THEN N(BDel(L(t), k), K(t), R(t), X(t))
              ELSE IF k > K(t) THEN N(L(t), K(t), BDel(R(t), k), X(t))
              ELSE IF L(t) = E THEN R(t) ELSE IF R(t) = E THEN L(t)
              ELSE LET s == MinK(R(t)) IN N(L(t), s, BDel(R(t), s), X(t))

(* ---- rotations ---- *)
RotR(t) == LET y == L(t) IN N(L(y), K(y), N(R(y), K(t), R(t), X(t)), X(y))
RotL(t) == LET y == R(t) IN N(N(L(t), K(t), L(y), X(t)), K(y), R(y), X(y))

(* ---- height balanced ---- *)
RECURSIVE Ht(_)
Ht(t) == IF t = E THEN 0 ELSE Max2(Ht(L(t)), Ht(R(t))) + 1
Bf(t) == Ht(R(t)) - Ht(L(t))
Fix(t) == IF Bf(t) < -1 THEN IF Bf(L(t)) <= 0 THEN RotR(t) ELSE RotR(N(RotL(L(t)), K(t), R(t), 0))
          ELSE IF Bf(t) > 1 THEN IF Bf(R(t)) >= 0 THEN RotL(t) ELSE RotL(N(L(t), K(t), RotR(R(t)), 0))
          ELSE t
RECURSIVE AIns(_, _)
AIns(t, k) == IF t = E THEN N(E, k, E, 0)
              ELSE IF k = K(t) THEN t
              ELSE IF k < K(t) THEN Fix(N(AIns(L(t), k), K(t), R(t), 0)) ELSE Fix(N(L(t), K(t), AIns(R(t), k), 0))
RECURSIVE ADel(_, _)
ADel(t, k) == IF t = E THEN E
              ELSE IF k < K(t) THEN Fix(N(ADel(L(t), k), K(t), R(t), 0))
              ELSE IF k > K(t) THEN Fix(N(L(t), K(t), ADel(R(t), k), 0))
              ELSE IF L(t) = E THEN R(t) ELSE IF R(t) = E THEN L(t)
              ELSE LET s == MinK(R(t)) IN Fix(N(L(t), s, ADel(R(t), s), 0))

(* ---- red-black (Okasaki's insertion, Kahrs' deletion); 1 is red ---- *)
Red(t) == t # E /\ X(t) = 1
Blk(t) == t # E /\ X(t) = 0
Bal(l, k, r) ==
  IF Red(l) /\ Red(r) THEN N(N(L(l), K(l), R(l), 0), k, N(L(r), K(r), R(r), 0), 1)
  ELSE IF Red(l) /\ Red(L(l)) THEN N(N(L(L(l)), K(L(l)), R(L(l)), 0), K(l), N(R(l), k, r, 0), 1)
  ELSE IF Red(l) /\ Red(R(l)) THEN N(N(L(l), K(l), L(R(l)), 0), K(R(l)), N(R(R(l)), k, r, 0), 1)
  ELSE IF Red(r) /\ Red(R(r)) THEN N(N(l, k, L(r), 0), K(r), N(L(R(r)), K(R(r)), R(R(r)), 0), 1)
  ELSE IF Red(r) /\ Red(L(r)) THEN N(N(l, k, L(L(r)), 0), K(L(r)), N(R(L(r)), K(r), R(r), 0), 1)
  ELSE N(l, k, r, 0)
Blacken(t) == IF t = E THEN E ELSE N(L(t), K(t), R(t), 0)
Sub1(t) == N(L(t), K(t), R(t), 1)
RECURSIVE RIns0(_, _)
RIns0(t, k) == IF t = E THEN N(E, k, E, 1)
               ELSE IF k = K(t) THEN t
               ELSE IF X(t) = 0
                    THEN IF k < K(t) THEN Bal(RIns0(L(t), k), K(t), R(t)) ELSE Bal(L(t), K(t), RIns0(R(t), k))
                    ELSE IF k < K(t) THEN N(RIns0(L(t), k), K(t), R(t), 1) ELSE N(L(t), K(t), RIns0(R(t), k), 1)
BalL(l, k, r) == IF Red(l) THEN N(Blacken(l), k, r, 1)
                 ELSE IF Blk(r) THEN Bal(l, k, Sub1(r))
                 ELSE N(N(l, k, L(L(r)), 0), K(L(r)), Bal(R(L(r)), K(r), Sub1(R(r))), 1)
BalR(l, k, r) == IF Red(r) THEN N(l, k, Blacken(r), 1)
                 ELSE IF Blk(l) THEN Bal(Sub1(l), k, r)
                 ELSE N(Bal(Sub1(L(l)), K(l), L(R(l))), K(R(l)), N(R(R(l)), k, r, 0), 1)
RECURSIVE App(_, _)
App(a, b) == IF a = E THEN b ELSE IF b = E THEN a
             ELSE IF Red(a) /\ Red(b)
                  THEN LET m == App(R(a), L(b)) IN
                       IF Red(m) THEN N(N(L(a), K(a), L(m), 1), K(m), N(R(m), K(b), R(b), 1), 1)
                       ELSE N(L(a), K(a), N(m, K(b), R(b), 1), 1)
             ELSE IF Blk(a) /\ Blk(b)
                  THEN LET m == App(R(a), L(b)) IN
                       IF Red(m) THEN N(N(L(a), K(a), L(m), 0), K(m), N(R(m), K(b), R(b), 0), 1)
                       ELSE BalL(L(a), K(a), N(m, K(b), R(b), 0))
             ELSE IF Red(b) THEN N(App(a, L(b)), K(b), R(b), 1)
             ELSE N(L(a), K(a), App(R(a), b), 1)
RECURSIVE RDel0(_, _)
RDel0(t, k) == IF t = E THEN E
               ELSE IF k < K(t) THEN IF Blk(L(t)) THEN BalL(RDel0(L(t), k), K(t), R(t)) ELSE N(RDel0(L(t), k), K(t), R(t), 1)
               ELSE IF k > K(t) THEN IF Blk(R(t)) THEN BalR(L(t), K(t), RDel0(R(t), k)) ELSE N(L(t), K(t), RDel0(R(t), k), 1)
               ELSE App(L(t), R(t))
RECURSIVE BH(_)
BH(t) == IF t = E THEN <<0, TRUE>>
         ELSE LET a == BH(L(t))
                  b == BH(R(t)) IN <<a[1] + 1 - X(t), a[2] /\ b[2] /\ a[1] = b[1]>>
RECURSIVE NoRR(_)
NoRR(t) == t = E \/ (NoRR(L(t)) /\ NoRR(R(t)) /\ (X(t) = 1 => ~Red(L(t)) /\ ~Red(R(t))))

(* ---- splay: double steps from the bottom, a single one at the top ---- *)
RECURSIVE Dp(_, _)
Dp(t, k) == IF k = K(t) THEN 0 ELSE 1 + Dp(IF k < K(t) THEN L(t) ELSE R(t), k)
Zig(t, k) == IF k < K(t) THEN RotR(t) ELSE RotL(t)
RECURSIVE Spl(_, _)
Spl(t, k) ==
  LET d == Dp(t, k) IN
  IF d = 0 THEN t
  ELSE IF d % 2 = 1
  THEN Zig(IF k < K(t) THEN N(Spl(L(t), k), K(t), R(t), 0) ELSE N(L(t), K(t), Spl(R(t), k), 0), k)
  ELSE LET c == IF k < K(t) THEN L(t) ELSE R(t)
           c2 == IF k < K(c) THEN N(Spl(L(c), k), K(c), R(c), 0) ELSE N(L(c), K(c), Spl(R(c), k), 0)
           same == (k < K(t)) = (k < K(c))
           t2(z) == IF k < K(t) THEN N(z, K(t), R(t), 0) ELSE N(L(t), K(t), z, 0)
       IN IF same THEN Zig(Zig(t2(c2), k), k) ELSE Zig(t2(Zig(c2, k)), k)

(* ---- treap ---- *)
RECURSIVE TIns(_, _, _)
TIns(t, k, p) ==
  IF t = E THEN N(E, k, E, p)
  ELSE IF k < K(t) THEN LET u == N(TIns(L(t), k, p), K(t), R(t), X(t)) IN IF X(L(u)) < X(u) THEN RotR(u) ELSE u
  ELSE LET u == N(L(t), K(t), TIns(R(t), k, p), X(t)) IN IF X(R(u)) < X(u) THEN RotL(u) ELSE u
RECURSIVE TJoin(_, _)
TJoin(a, b) == IF a = E THEN b ELSE IF b = E THEN a
               ELSE IF X(a) < X(b) THEN N(L(a), K(a), TJoin(R(a), b), X(a)) ELSE N(TJoin(a, L(b)), K(b), R(b), X(b))
RECURSIVE TDel(_, _)
TDel(t, k) == IF t = E THEN E
              ELSE IF k < K(t) THEN N(TDel(L(t), k), K(t), R(t), X(t))
              ELSE IF k > K(t) THEN N(L(t), K(t), TDel(R(t), k), X(t))
              ELSE TJoin(L(t), R(t))
RECURSIVE Heaped(_)
Heaped(t) == t = E \/ (Heaped(L(t)) /\ Heaped(R(t)) /\ (L(t) # E => X(L(t)) >= X(t)) /\ (R(t) # E => X(R(t)) >= X(t)))

DoIns(t, k, p) == CASE Kind = "BST" -> BIns(t, k)
                    [] Kind = "AVL" -> AIns(t, k)
                    [] Kind = "RB" -> Blacken(RIns0(t, k))
                    [] Kind = "SPLAY" -> Spl(BIns(t, k), k)
                    [] OTHER -> TIns(TDel(t, k), k, p)
DoDel(t, k) == CASE Kind = "BST" -> BDel(t, k)
                 [] Kind = "AVL" -> ADel(t, k)
                 [] Kind = "RB" -> Blacken(RDel0(t, k))
                 [] Kind = "SPLAY" -> IF k \in Rng(Flat(t)) THEN BDel(Spl(t, k), k) ELSE t
                 [] OTHER -> TDel(t, k)

MC_Inits == { <<[k |-> Kind], [t |-> E, s |-> {}]>> }
MC_Calls(c, s) == { [op |-> "insert", a |-> <<k, p>>] : k \in MKeys, p \in MPrios }
                  \cup { [op |-> "delete", a |-> <<k>>] : k \in Keys(s.s) }
MC_Do(s, c) == [st |-> IF c.op = "insert" THEN [t |-> DoIns(s.t, c.a[1], c.a[2]), s |-> Put(s.s, c.a[1], 0, c.a[2])]
                       ELSE [t |-> DoDel(s.t, c.a[1]), s |-> { e \in s.s : e[1] # c.a[1] }],
                x |-> "", r |-> NONE]
ShapeView == st.t
NatOrd == [cmp |-> 1]
Content == Flat(st.t) = ByKey(NatOrd, Keys(st.s))
RECURSIVE Balanced(_)
Balanced(t) == t = E \/ (Bf(t) \in {-1, 0, 1} /\ Balanced(L(t)) /\ Balanced(R(t)))
Discipline == CASE Kind = "AVL" -> Balanced(st.t)
                [] Kind = "RB" -> ~Red(st.t) /\ NoRR(st.t) /\ BH(st.t)[2]
                [] Kind = "SPLAY" -> h = <<>> \/ h[Len(h)][1] # "insert" \/ K(st.t) = h[Len(h)][2]
                [] Kind = "TREAP" -> Heaped(st.t) /\ { e[3] : e \in st.s } \subseteq MPrios
                [] OTHER -> TRUE
EmitShape == (Emit /\ (All \/ Len(h) = Depth)) => PrintT("@@" \o ToJson([cfg |-> cfg, ops |-> h]))
=============================================================================
