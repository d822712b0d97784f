------------------------------ MODULE CubeJac ------------------------------
(***************************************************************************)
(* The arithmetic of Cube.tla with derivatives: an entry is                *)
(*   [k: kind, v: value, j: Jacobian with respect to each target, big]     *)
(* j is a sequence over targets, <<>> standing for zero.  Entries whose    *)
(* numbers become large are marked and their values dropped.               *)
(***************************************************************************)
EXTENDS Cube

Dim(k) == CASE k \in {"R", "V", "P", "W"} -> 3 [] k \in {"T", "X"} -> 6 [] k = "S" -> 1

RECURSIVE DotN(_, _, _)
DotN(a, b, i) == IF i = 0 THEN 0 ELSE a[i] * b[i] + DotN(a, b, i - 1)
Cols(B) == Force([c \in 1..Len(B[1]) |-> Force([r \in 1..Len(B) |-> B[r][c]])])
Mul(A, B) == LET t == Cols(B)
             IN Force([r \in 1..Len(A) |-> Force([c \in 1..Len(t) |-> DotN(A[r], t[c], Len(t[c]))])])
MScale(s, A) == Force([r \in 1..Len(A) |-> VMul(s, A[r])])
MPlus(A, B) == Force([r \in 1..Len(A) |-> VAdd(A[r], B[r])])
MId(n) == Force([r \in 1..n |-> Force([c \in 1..n |-> IF r = c THEN 1 ELSE 0])])
ColOf(v) == Force([r \in 1..Len(v) |-> <<v[r]>>])
Hcat(A, B) == Force([r \in 1..Len(A) |-> A[r] \o B[r]])
Hat(v) == <<<<0, -v[3], v[2]>>, <<v[3], 0, -v[1]>>, <<-v[2], v[1], 0>>>>
Z33 == <<<<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>>>
AdT(T) == Hcat(T.R, Z33) \o Hcat(MM(Hat(T.t), T.R), T.R)

Times(L, J) == IF J = <<>> THEN <<>> ELSE Mul(L, J)
Plus(A, B) == IF A = <<>> THEN B ELSE IF B = <<>> THEN A ELSE MPlus(A, B)

\* local derivatives of operation o with result r
Local1(o, c, a, r) ==
    CASE o = "inv" /\ a.k = "R" -> MScale(-1, r.v)
      [] o = "inv" /\ a.k = "T" -> MScale(-1, AdT(r.v))
      [] o = "rotof" -> Hcat(I3, Z33)
      [] o = "transof" -> Hcat(MScale(-1, Hat(r.v)), I3)
      [] o = "neg" -> MScale(-1, MId(Dim(a.k)))
      [] o \in {"kmul", "mulk"} -> MScale(Consts[c], MId(Dim(a.k)))
      [] o = "sqn" -> <<VMul(2, a.v)>>
Local2(o, a, b, r) ==
    CASE o = "comp" /\ a.k = "R" -> <<I3, a.v>>
      [] o = "comp" /\ a.k = "T" -> <<MId(6), AdT(a.v)>>
      [] o = "rot" -> <<MScale(-1, Hat(r.v)), a.v>>
      [] o = "trf" -> <<Hcat(MScale(-1, Hat(r.v)), I3), a.v.R>>
      [] o = "add" -> <<MId(Dim(a.k)), MId(Dim(b.k))>>
      [] o = "sub" -> <<MId(Dim(a.k)), MScale(-1, MId(Dim(b.k)))>>
      [] o = "scale" -> <<ColOf(b.v), MScale(a.v[1], MId(Dim(b.k)))>>
      [] o = "prod" -> <<<<<<b.v[1]>>>>, <<<<a.v[1]>>>>>>
      [] o = "dot" -> <<<<b.v>>, <<a.v>>>>
Value1(o, c, a) == Apply1(o, c, a)
Value2(o, a, b) == IF o = "prod" THEN [k |-> "S", v |-> <<a.v[1] * b.v[1]>>] ELSE Apply2(o, a, b)

SmallVec(v, m) == \A i \in 1..Len(v) : v[i] <= m /\ v[i] >= -m
SmallVal(e) == CASE e.k = "R" -> TRUE [] e.k = "T" -> SmallVec(e.v.t, 500) [] OTHER -> SmallVec(e.v, 500)
SmallJac(j) == \A i \in 1..Len(j) : \A r \in 1..Len(j[i]) : SmallVec(j[i][r], 10000)
BigOf(k) == [k |-> k, v |-> <<>>, j |-> <<>>, big |-> TRUE]
Checked(r, j) == IF SmallVal(r) /\ SmallJac(j) THEN [k |-> r.k, v |-> r.v, j |-> j, big |-> FALSE] ELSE BigOf(r.k)

Do1(o, c, a) == IF a.big THEN a
                ELSE LET r == Value1(o, c, a)
                         L == Local1(o, c, a, r)
                     IN Checked(r, Force([i \in 1..Len(a.j) |-> Times(L, a.j[i])]))
Do2(o, a, b) == IF a.big THEN a ELSE IF b.big THEN b
                ELSE LET r == Value2(o, a, b)
                         L == Local2(o, a, b, r)
                     IN Checked(r, Force([i \in 1..Len(a.j) |-> Plus(Times(L[1], a.j[i]), Times(L[2], b.j[i]))]))

\* a variable which is target i of n, and a value which is no target
Target(k, v, i, n) == [k |-> k, v |-> v, big |-> FALSE,
                       j |-> Force([m \in 1..n |-> IF m = i THEN MId(Dim(k)) ELSE <<>>])]
Constant(k, v, n) == [k |-> k, v |-> v, big |-> FALSE, j |-> Force([m \in 1..n |-> <<>>])]
\* an intermediate result which is itself target i
Mark(e, i) == IF e.big THEN e ELSE [e EXCEPT !.j[i] = MId(Dim(e.k))]
=============================================================================
