-------------------------------- MODULE Expr --------------------------------
(***************************************************************************)
(* The meaning of expressions: a stack machine which executes a program in *)
(* postfix form over exact numbers and carries, for every intermediate     *)
(* result, its kind, its value, and its Jacobian with respect to each      *)
(* variable (perturbation on the left for rotations and transforms).       *)
(*                                                                         *)
(* Kinds:  R rotation   T rigid transform   V translation   P point        *)
(*         W relative rotation   X twist   S scalar                        *)
(*         "C.." compound of the kinds that follow, e.g. "CRVS"            *)
(***************************************************************************)
EXTENDS Pools

Dim(k) == CASE k \in {"R", "V", "P", "W"} -> 3 [] k \in {"T", "X"} -> 6 [] k = "S" -> 1

(*---------------------------- local derivatives --------------------------*)
(* A local derivative is the identity, minus the identity, a multiple of   *)
(* the identity, or a matrix.                                              *)
LI == [t |-> "I"]
LN == [t |-> "N"]
LS(s) == [t |-> "S", s |-> s]
LM(m) == [t |-> "M", m |-> m]

Times(L, J) == IF J = <<>> THEN <<>>
               ELSE CASE L.t = "I" -> J
                      [] L.t = "N" -> MNeg(J)
                      [] L.t = "S" -> MScale(L.s, J)
                      [] L.t = "M" -> MMul(L.m, J)
JPlus(A, B) == IF A = <<>> THEN B ELSE IF B = <<>> THEN A ELSE MAdd(A, B)

(* An absent variable (or constant) has Jacobian <<>>, meaning zero *)
Chain1(L, js) == Force([i \in 1..Len(js) |-> Times(L, js[i])])
Chain2(La, ja, Lb, jb) ==
    Force([i \in 1..Len(ja) |-> JPlus(Times(La, ja[i]), Times(Lb, jb[i]))])

Row(v) == <<v>>
S1(x) == <<x>>

(*------------------------------- operations ------------------------------*)
(* Result of an operation: kind, value, local derivatives, ambiguity       *)
Un(k, v, l) == [k |-> k, v |-> v, la |-> l, amb |-> FALSE]
Bin(k, v, la, lb) == [k |-> k, v |-> v, la |-> la, lb |-> lb, amb |-> FALSE]

Unary(op, a) ==
    CASE op = "inv" /\ a.k = "R" -> LET Q == MT(a.v) IN Un("R", Q, LM(MNeg(Q)))
      [] op = "inv" /\ a.k = "T" -> LET Q == RTInv(a.v) IN Un("T", Q, LM(MNeg(Ad(Q))))
      [] op = "log" /\ a.k = "R" -> LET w == LogSO3(a.v)
                                    IN [Un("W", w, LM(JLInv(w))) EXCEPT !.amb = LogAmbiguous(a.v)]
      [] op = "log" /\ a.k = "T" -> LET x == LogSE3(a.v)
                                    IN [Un("X", x, LM(JLInv6(x))) EXCEPT !.amb = LogAmbiguous(a.v.R)]
      [] op = "exp" /\ a.k = "W" -> Un("R", ExpSO3(a.v), LM(JL(a.v)))
      [] op = "exp" /\ a.k = "X" -> Un("T", ExpSE3(a.v), LM(JL6(a.v)))
      [] op = "rotof" -> IF a.k = "R" THEN Un("R", a.v, LI)
                         ELSE Un("R", a.v.R, LM([i \in 1..3 |-> I3[i] \o Z33[i]]))
      [] op = "transof" -> LET C == MNeg(Cross(a.v.t))
                           IN Un("V", a.v.t, LM(Force([i \in 1..3 |-> C[i] \o I3[i]])))
      [] op = "neg" -> Un(a.k, VNeg(a.v), LN)
      [] op = "sqn" -> Un("S", S1(VDot(a.v, a.v)), LM(Row(VScale(TWO, a.v))))
      [] op = "norm" -> LET n == NSqrt(VDot(a.v, a.v))
                        IN Un("S", S1(n), LM(Row(VScale(NInv(n), a.v))))
      [] op = "nrm" -> LET n == NSqrt(VDot(a.v, a.v))
                           m == NInv(n)
                           u == VScale(m, a.v)
                       IN Un(a.k, u, LM(MScale(m, MSub(MId(Dim(a.k)), Outer(u, u)))))
      [] op = "acos" -> LET x == a.v[1]
                            s == NSqrt(NSub(ONE, NMul(x, x)))
                            th == IF x = ONE THEN ZERO
                                  ELSE IF x = MONE THEN PiNum
                                  ELSE IF ~IsRat(x) \/ ~Defined(s) THEN BAD
                                  ELSE NMul(Phi(x, 1), s)
                        \* the angle moves with the square root of an error at 0 and pi
                        IN [Un("S", S1(th), LS(NNeg(NInv(s)))) EXCEPT !.amb = x = ONE \/ x = MONE]

(* Operations with a plain number c *)
Plain(op, a, c) ==
    CASE op = "kmul" -> Un(a.k, VScale(c, a.v), LS(c))            \* c * a
      [] op = "mulk" -> Un(a.k, VScale(c, a.v), LS(c))            \* a * c
      [] op = "divk" -> Un(a.k, VScale(NInv(c), a.v), LS(NInv(c)))
      [] op = "kdiv" -> LET q == NInv(a.v[1])                     \* c / a
                        IN Un("S", S1(NMul(c, q)), LS(NNeg(NMul(c, NMul(q, q)))))
      [] op = "kadd" -> Un("S", S1(NAdd(c, a.v[1])), LI)
      [] op = "addk" -> Un("S", S1(NAdd(c, a.v[1])), LI)
      [] op = "ksub" -> Un("S", S1(NSub(c, a.v[1])), LN)
      [] op = "subk" -> Un("S", S1(NSub(a.v[1], c)), LI)

Binary(op, a, b) ==
    CASE op = "comp" /\ a.k = "R" -> Bin("R", MMul(a.v, b.v), LI, LM(a.v))
      [] op = "comp" /\ a.k = "T" -> Bin("T", RTMul(a.v, b.v), LI, LM(Ad(a.v)))
      [] op = "rot" -> LET p == MV(a.v, b.v) IN Bin("V", p, LM(MNeg(Cross(p))), LM(a.v))
      [] op = "trf" -> LET p == VAdd(MV(a.v.R, b.v), a.v.t)
                           C == MNeg(Cross(p))
                       IN Bin("V", p, LM(Force([i \in 1..3 |-> C[i] \o I3[i]])), LM(a.v.R))
      [] op = "bplus" /\ a.k = "R" -> LET E == ExpSO3(b.v)
                                      IN Bin("R", MMul(E, a.v), LM(E), LM(JL(b.v)))
      [] op = "bplus" /\ a.k = "T" -> LET E == ExpSE3(b.v)
                                      IN Bin("T", RTMul(E, a.v), LM(Ad(E)), LM(JL6(b.v)))
      [] op = "bminus" /\ a.k = "R" ->
            LET D == MMul(a.v, MT(b.v))
                w == LogSO3(D)
                J == JLInv(w)
            IN [Bin("W", w, LM(J), LM(MNeg(MMul(J, D)))) EXCEPT !.amb = LogAmbiguous(D)]
      [] op = "bminus" /\ a.k = "T" ->
            LET D == RTMul(a.v, RTInv(b.v))
                x == LogSE3(D)
                J == JLInv6(x)
            IN [Bin("X", x, LM(J), LM(MNeg(MMul(J, Ad(D))))) EXCEPT !.amb = LogAmbiguous(D.R)]
      [] op = "add" -> Bin(IF b.k = "P" THEN "P" ELSE a.k, VAdd(a.v, b.v), LI, LI)
      [] op = "sub" -> Bin(IF a.k = "P" /\ b.k = "P" THEN "V" ELSE a.k, VSub(a.v, b.v), LI, LN)
      [] op = "scale" -> Bin(b.k, VScale(a.v[1], b.v), LM(Col(b.v)), LS(a.v[1]))
      [] op = "scaler" -> Bin(a.k, VScale(b.v[1], a.v), LS(b.v[1]), LM(Col(a.v)))
      [] op = "sdiv" -> LET q == NInv(b.v[1])
                        IN Bin(a.k, VScale(q, a.v), LS(q), LM(Col(VScale(NNeg(NMul(q, q)), a.v))))
      [] op = "dot" -> Bin("S", S1(VDot(a.v, b.v)), LM(Row(b.v)), LM(Row(a.v)))
      [] op = "prod" -> Bin("S", S1(NMul(a.v[1], b.v[1])), LS(b.v[1]), LS(a.v[1]))
      [] op = "div" -> LET q == NInv(b.v[1])
                       IN Bin("S", S1(NMul(a.v[1], q)), LS(q), LS(NNeg(NMul(a.v[1], NMul(q, q)))))

UnaryOps == {"inv", "log", "exp", "rotof", "transof", "neg", "sqn", "norm", "nrm", "acos"}
PlainOps == {"kmul", "mulk", "divk", "kdiv", "kadd", "addk", "ksub", "subk"}
BinaryOps == {"comp", "rot", "trf", "bplus", "bminus", "add", "sub", "scale", "scaler", "sdiv",
              "dot", "prod", "div"}

(*-------------------------------- variables ------------------------------*)
(* A signed permutation of the coordinates (there are 24 rotations, and 24 *)
(* with reflection; lengths of vectors are kept)                           *)
Perms == <<<<1, 2, 3>>, <<2, 3, 1>>, <<3, 1, 2>>, <<1, 3, 2>>, <<3, 2, 1>>, <<2, 1, 3>>>>
Permute(g, v) ==
    LET p == Perms[1 + (g % 6)]
        sg == g \div 6
        f(i, x) == IF (sg \div (2 ^ (i - 1))) % 2 = 1 THEN NNeg(x) ELSE x
    IN <<f(1, v[p[1]]), f(2, v[p[2]]), f(3, v[p[3]])>>

(* A vector of a pool: [f: form, i: index, n/d: factor, g: permutation] *)
PoolVec(s) ==
    IF s.f = "zero" THEN Z3
    ELSE LET pool == CASE s.f = "gen" -> GenRotVecs
                       [] s.f = "mult" -> MultRotVecs
                       [] s.f = "pi" -> PiRotVecs
                       [] s.f = "pieps" -> PiEpsRotVecs
                       [] s.f = "eps" -> EpsRotVecs
                       [] s.f = "t" -> TransVecs
             v == Permute(s.g, pool[1 + (s.i % Len(pool))])
         IN IF s.n = 1 /\ s.d = 1 THEN v ELSE VScale(Rat(s.n, s.d), v)

(* Value of a leaf of kind k, and the numbers from which the harness builds it *)
LeafCoord(k, s) ==
    CASE k \in {"R", "W", "V", "P"} -> PoolVec(s.a)
      [] k \in {"T", "X"} -> PoolVec(s.a) \o PoolVec(s.b)
      [] k = "S" -> <<NMul(Rat(s.a.n, s.a.d), Scalars[1 + (s.a.i % Len(Scalars))])>>

LeafValue(k, c) ==
    CASE k = "R" -> ExpSO3(c)
      [] k = "T" -> [R |-> ExpSO3(Om(c)), t |-> Tr(c)]
      [] OTHER -> c

NoJac(n) == Force([i \in 1..n |-> <<>>])
LeafJac(n, i, k) == Force([m \in 1..n |-> IF m = i THEN MId(Dim(k)) ELSE <<>>])

ConstEntry(k, n) ==
    [k |-> k, amb |-> FALSE, j |-> NoJac(n),
     v |-> CASE k = "R" -> I3 [] k = "T" -> RTId [] k \in {"V", "W", "P"} -> Z3
             [] k = "X" -> Z3 \o Z3 [] k = "S" -> <<ZERO>>]

LeafEntry(k, c, n, i) == [k |-> k, v |-> LeafValue(k, c), j |-> LeafJac(n, i, k), amb |-> FALSE]

(*------------------------------- compounds -------------------------------*)
(* The value of a compound is the sequence of its elements [k, v]; its     *)
(* Jacobian stacks the Jacobians of the elements, in order.                *)
RECURSIVE StackJ(_, _, _)
ZeroRows(J, k, n) == IF J = <<>> THEN MZero(Dim(k), n) ELSE J
StackJ(es, i, n) ==   \* rows of all elements for variable i of dimension n
    IF es = <<>> THEN <<>> ELSE ZeroRows(Head(es).j[i], Head(es).k, n) \o StackJ(Tail(es), i, n)

ValueDefined(k, v) ==
    CASE k = "R" -> MDefined(v) [] k = "T" -> RTDefined(v) [] k = "C" -> TRUE [] OTHER -> VDefined(v)

(*-------------------------------- the machine ----------------------------*)
Apply1(op, a) == LET r == Unary(op, a)
                 IN [k |-> r.k, v |-> r.v, j |-> Chain1(r.la, a.j), amb |-> a.amb \/ r.amb]
ApplyK(op, a, c) == LET r == Plain(op, a, c)
                    IN [k |-> r.k, v |-> r.v, j |-> Chain1(r.la, a.j), amb |-> a.amb \/ r.amb]
Apply2(op, a, b) == LET r == Binary(op, a, b)
                    IN [k |-> r.k, v |-> r.v, j |-> Chain2(r.la, a.j, r.lb, b.j),
                        amb |-> a.amb \/ b.amb \/ r.amb]
=============================================================================
