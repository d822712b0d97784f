-------------------------------- MODULE Lie --------------------------------
(***************************************************************************)
(* SO(3) and SE(3) over exact numbers: group operations, exponential and   *)
(* logarithm, adjoint and the (left) Jacobians of exp and log.             *)
(*                                                                         *)
(* Conventions of the library: a perturbation acts on the left,            *)
(* X [+] d = exp(d) X and X1 [-] X2 = log(X1 X2^-1); tangent vectors of    *)
(* SE(3) list the rotation first and the translation second.               *)
(***************************************************************************)
EXTENDS Num

(*------------------------- matrices as tuples of rows --------------------*)

Force(s) == <<>> \o s      \* TLC evaluates [i \in .. |-> ..] lazily; this forces it

RECURSIVE DotFrom(_, _, _, _)
DotFrom(a, B, j, k) ==
    IF k = 0 THEN ZERO
    ELSE IF a[k] = ZERO /\ Defined(B[k][j]) THEN DotFrom(a, B, j, k - 1)
    ELSE NAdd(DotFrom(a, B, j, k - 1), NMul(a[k], B[k][j]))

MMul(A, B) ==
    Force([i \in 1..Len(A) |-> Force([j \in 1..Len(B[1]) |-> DotFrom(A[i], B, j, Len(B))])])
MAdd(A, B) == Force([i \in 1..Len(A) |-> Force([j \in 1..Len(A[1]) |-> NAdd(A[i][j], B[i][j])])])
MNeg(A) == Force([i \in 1..Len(A) |-> Force([j \in 1..Len(A[1]) |-> NNeg(A[i][j])])])
MSub(A, B) == MAdd(A, MNeg(B))
MScale(x, A) == Force([i \in 1..Len(A) |-> Force([j \in 1..Len(A[1]) |-> NMul(x, A[i][j])])])
MT(A) == Force([j \in 1..Len(A[1]) |-> Force([i \in 1..Len(A) |-> A[i][j]])])
MId(n) == Force([i \in 1..n |-> Force([j \in 1..n |-> IF i = j THEN ONE ELSE ZERO])])
MZero(r, c) == Force([i \in 1..r |-> Force([j \in 1..c |-> ZERO])])
MDefined(A) == \A i \in 1..Len(A) : \A j \in 1..Len(A[i]) : Defined(A[i][j])
MRational(A) == \A i \in 1..Len(A) : \A j \in 1..Len(A[i]) : IsRat(A[i][j])

I3 == <<<<ONE, ZERO, ZERO>>, <<ZERO, ONE, ZERO>>, <<ZERO, ZERO, ONE>>>>
Z33 == <<<<ZERO, ZERO, ZERO>>, <<ZERO, ZERO, ZERO>>, <<ZERO, ZERO, ZERO>>>>
Z3 == <<ZERO, ZERO, ZERO>>

(*------------------------------- vectors ---------------------------------*)
VAdd(a, b) == Force([i \in 1..Len(a) |-> NAdd(a[i], b[i])])
VNeg(a) == Force([i \in 1..Len(a) |-> NNeg(a[i])])
VSub(a, b) == Force([i \in 1..Len(a) |-> NSub(a[i], b[i])])
VScale(x, a) == Force([i \in 1..Len(a) |-> NMul(x, a[i])])
RECURSIVE VDotN(_, _, _)
VDotN(a, b, k) == IF k = 0 THEN ZERO ELSE NAdd(VDotN(a, b, k - 1), NMul(a[k], b[k]))
VDot(a, b) == VDotN(a, b, Len(a))
VDefined(a) == \A i \in 1..Len(a) : Defined(a[i])
VRational(a) == \A i \in 1..Len(a) : IsRat(a[i])
MV(A, v) == Force([i \in 1..Len(A) |-> VDot(A[i], v)])
Col(v) == Force([i \in 1..Len(v) |-> <<v[i]>>])
Outer(a, b) == Force([i \in 1..Len(a) |-> Force([j \in 1..Len(b) |-> NMul(a[i], b[j])])])
Cross(v) == <<<<ZERO, NNeg(v[3]), v[2]>>, <<v[3], ZERO, NNeg(v[1])>>, <<NNeg(v[2]), v[1], ZERO>>>>
Vee(A) == <<A[3][2], A[1][3], A[2][1]>>
VSlice(v, a, b) == SubSeq(v, a, b)

(*----------------------- SO(3): exponential and log ----------------------*)
(* A rotation vector is one of                                             *)
(*   "zero" 0;  "gen" phi_c * w with |w|^2 = 1 - c^2 and w rational;       *)
(*   "pi"  pi * a, |a| = 1;   "pieps" (pi - eps) * a;   "eps" eps * d      *)
(* AngleForm finds the form, or "none".                                    *)

SymsOf(v) == UNION {DOMAIN Poly(v[i]) : i \in 1..3}

CoefV(v, m) == <<IF m \in DOMAIN Poly(v[1]) THEN Poly(v[1])[m] ELSE ZERO,
                 IF m \in DOMAIN Poly(v[2]) THEN Poly(v[2])[m] ELSE ZERO,
                 IF m \in DOMAIN Poly(v[3]) THEN Poly(v[3])[m] ELSE ZERO>>

EPSM == [s \in {EPS} |-> 1]
EPSM2 == [s \in {EPS} |-> 2]
PIM == [s \in {PISYM} |-> 1]

(* The vector k phi_c w, |w|^2 = 1 - c^2, k = 1, 2, ...: rotation by       *)
(* k theta, theta = acos(c).  C = cos(k theta), S = sin(k theta)/sin(theta)*)
RECURSIVE ChebT(_, _)
ChebT(c, k) == IF k = 0 THEN ONE ELSE IF k = 1 THEN c
               ELSE NSub(NMul(TWO, NMul(c, ChebT(c, k - 1))), ChebT(c, k - 2))
RECURSIVE ChebU(_, _)
ChebU(c, k) == IF k = 0 THEN ONE ELSE IF k = 1 THEN NMul(TWO, c)
               ELSE NSub(NMul(TWO, NMul(c, ChebU(c, k - 1))), ChebU(c, k - 2))
GenForm(c, w, k) ==
    [f |-> "gen", c |-> c, w |-> w, k |-> k, s2 |-> NSub(ONE, NMul(c, c)),
     C |-> ChebT(c, k), S |-> ChebU(c, k - 1)]
(* (k phi_c)^e *)
KPhi(g, e) == NMul(CASE e = 1 -> <<g.k, 1>> [] e = -1 -> <<1, g.k>> [] e = -2 -> <<1, g.k * g.k>>,
                   Phi(g.c, e))

AngleForm(v) ==
    IF ~VDefined(v) THEN [f |-> "none"]
    ELSE IF v = Z3 THEN [f |-> "zero"]
    ELSE IF \E i \in 1..3 : v[i][1] # 0 THEN [f |-> "none"]
    ELSE LET ms == SymsOf(v) IN
         IF ms # {} /\ ms \subseteq {EPSM, EPSM2} THEN [f |-> "eps"]
         ELSE IF ms = {PIM, EPSM} THEN
              LET a == CoefV(v, PIM)
                  e == CoefV(v, EPSM)
              IN IF VDot(a, a) = ONE /\ e = VNeg(a) THEN [f |-> "pieps", a |-> a]
                 ELSE [f |-> "none"]
         ELSE IF Cardinality(ms) # 1 THEN [f |-> "none"]
         ELSE LET m == CHOOSE m \in ms : TRUE
              IN IF Cardinality(DOMAIN m) # 1 THEN [f |-> "none"]
                 ELSE LET s == CHOOSE s \in DOMAIN m : TRUE
                          w == CoefV(v, m)
                      IN IF m[s] # 1 \/ s = EPS THEN [f |-> "none"]
                         ELSE IF s = PISYM THEN
                              (IF VDot(w, w) = ONE THEN [f |-> "pi", a |-> w] ELSE [f |-> "none"])
                         ELSE LET q == NSqrt(NDiv(VDot(w, w), NSub(ONE, NMul(s, s))))
                              IN IF Len(q) = 2 /\ q[2] = 1 /\ q[1] > 0 /\ q[1] < 6
                                 THEN GenForm(s, VScale(NInv(q), w), q[1])
                                 ELSE [f |-> "none"]

(* Small angles are carried to the fourth power of eps *)
SinEps == NSub(Eps(1), NMul(<<1, 6>>, Eps(3)))      \* sin(pi - eps)
CosPiEps == NAdd(MONE, NSub(NMul(HALF, Eps(2)), NMul(<<1, 24>>, Eps(4))))
\* I + a1 X + .. + a4 X^4
PowSeries(X, a1, a2, a3, a4) ==
    LET X2 == MMul(X, X)
        lin == MAdd(I3, MAdd(MScale(a1, X), MScale(a2, X2)))
        cub == MAdd(MScale(a3, X), MScale(a4, X2))
    IN MAdd(lin, MMul(X2, cub))

BAD33 == <<<<BAD, BAD, BAD>>, <<BAD, BAD, BAD>>, <<BAD, BAD, BAD>>>>

(* exp: SO(3) *)
ExpSO3(v) ==
    LET k == AngleForm(v) IN
    CASE k.f = "none" -> BAD33
      [] k.f = "zero" -> I3
      [] k.f = "eps" -> PowSeries(Cross(v), <<1, 1>>, <<1, 2>>, <<1, 6>>, <<1, 24>>)
      [] k.f = "pi" -> MSub(MScale(TWO, Outer(k.a, k.a)), I3)
      [] k.f = "pieps" ->
           LET A == Cross(k.a) IN
           MAdd(I3, MAdd(MScale(SinEps, A), MScale(NSub(ONE, CosPiEps), MMul(A, A))))
      [] k.f = "gen" ->
           \* cos I + (1-cos) a a^T + sin [a],  a = w/s, s^2 = 1-c^2
           MAdd(MScale(k.C, I3),
                MAdd(MScale(NDiv(NSub(ONE, k.C), k.s2), Outer(k.w, k.w)),
                     MScale(k.S, Cross(k.w))))

(* Left Jacobian of SO(3): I + (1-cos)/th^2 [v] + (th-sin)/th^3 [v]^2.     *)
(* In the form k phi_c w:                                                  *)
(*   (1-cos)/th^2 [v] = (1-C)/(k phi s^2) [w],                             *)
(*   (th-sin)/th^3 [v]^2 = (1 - S/(k phi))/s^2 [w]^2                       *)
JL(v) ==
    LET k == AngleForm(v) IN
    CASE k.f = "none" -> BAD33
      [] k.f = "zero" -> I3
      [] k.f = "eps" -> PowSeries(Cross(v), <<1, 2>>, <<1, 6>>, <<1, 24>>, <<1, 120>>)
      [] k.f = "pi" -> LET A == Cross(k.a) IN
                       MAdd(I3, MAdd(MScale(NMul(TWO, Phi(PISYM, -1)), A), MMul(A, A)))
      [] k.f = "pieps" ->
                       LET A == Cross(k.a) IN
                       MAdd(I3, MAdd(MScale(NMul(NSub(ONE, CosPiEps), InvPiEps), A),
                                     MScale(NSub(ONE, NMul(SinEps, InvPiEps)), MMul(A, A))))
      [] k.f = "gen" ->
           LET X == Cross(k.w)
               pin == KPhi(k, -1)
           IN MAdd(I3, MAdd(MScale(NMul(NDiv(NSub(ONE, k.C), k.s2), pin), X),
                            MScale(NDiv(NSub(ONE, NMul(k.S, pin)), k.s2), MMul(X, X))))

(* Inverse of the left Jacobian:                                           *)
(*   I - 1/2 [v] + (1 - (th/2) cot(th/2))/th^2 [v]^2                       *)
(* In the form phi_c w (k = 1): (th/2) cot(th/2) = phi (1+c)/2.            *)
(* Only used for the value of a logarithm, so k = 1.                       *)
JLInv(v) ==
    LET k == AngleForm(v) IN
    CASE k.f = "none" -> BAD33
      [] k.f = "zero" -> I3
      [] k.f = "eps" -> PowSeries(Cross(v), <<-1, 2>>, <<1, 12>>, ZERO, <<-1, 720>>)
      [] k.f = "pi" -> LET A == Cross(k.a) IN
                       MAdd(I3, MAdd(MScale(NMul(<<-1, 2>>, PiNum), A), MMul(A, A)))
      [] k.f = "pieps" -> \* (th/2) cot(th/2) = (pi-e)/2 tan(e/2)
                       LET A == Cross(k.a)
                           ht == NAdd(NMul(<<1, 4>>, Eps(1)), NMul(<<1, 48>>, Eps(3)))
                       IN MAdd(I3, MAdd(MScale(NMul(<<-1, 2>>, PiEpsNum), A),
                                  MScale(NSub(ONE, NMul(ht, PiEpsNum)), MMul(A, A))))
      [] k.f = "gen" /\ k.k # 1 -> BAD33
      [] k.f = "gen" /\ k.k = 1 ->
           LET X == Cross(k.w)
               s2 == NSub(ONE, NMul(k.c, k.c))
               ph == Phi(k.c, 1)
           IN MAdd(I3, MAdd(MScale(NMul(<<-1, 2>>, ph), X),
                            MScale(NDiv(NSub(ONE, NMul(NMul(HALF, NAdd(ONE, k.c)), ph)), s2),
                                   MMul(X, X))))

(* log: SO(3).  At angle pi the logarithm is two-valued; LogSO3 picks one  *)
(* and LogAmbiguous says so.                                               *)
TraceM(R) == NAdd(R[1][1], NAdd(R[2][2], R[3][3]))
SkewV(R) == VScale(HALF, <<NSub(R[3][2], R[2][3]), NSub(R[1][3], R[3][1]), NSub(R[2][1], R[1][2])>>)

BADV == <<BAD, BAD, BAD>>

RConst(R) == Force([i \in 1..3 |-> Force([j \in 1..3 |-> RPart(R[i][j])])])

(* only eps occurs in R *)
OnlyEps(R) == \A i, j \in 1..3 : \A m \in DOMAIN Poly(R[i][j]) : DOMAIN m = {EPS}

(* axis of a rational rotation by pi: column of (R+I)/2 = a a^T, normalised *)
PiAxis(R) ==
    LET A == MScale(HALF, MAdd(R, I3))
        i == CHOOSE i \in 1..3 : A[i][i] # ZERO
        ai == NSqrt(A[i][i])
    IN IF ai = BAD THEN BADV ELSE VScale(NInv(ai), <<A[1][i], A[2][i], A[3][i]>>)

LogSO3(R) ==
    IF ~MDefined(R) THEN BADV
    ELSE IF MRational(R) THEN
         LET c == NMul(HALF, NSub(TraceM(R), ONE))
             w == SkewV(R)
         IN IF c = ONE THEN Z3
            ELSE IF c = MONE THEN (LET a == PiAxis(R) IN IF a = BADV THEN BADV ELSE VScale(PiNum, a))
            ELSE IF ~Defined(c) \/ ~VDefined(w) THEN BADV
            ELSE VScale(Phi(c, 1), w)
    ELSE IF OnlyEps(R) /\ RConst(R) = I3 THEN
         LET e == SkewV(R)     \* = sin(th) a;  asin(x)/x = 1 + x^2/6 + O(x^4)
         IN VScale(NAdd(ONE, NMul(<<1, 6>>, VDot(e, e))), e)
    ELSE IF OnlyEps(R) /\ NMul(HALF, NSub(TraceM(RConst(R)), ONE)) = MONE THEN
         LET e == SkewV(R)                          \* = sin(th) a = eps a + O(eps^3)
             a == CoefV(e, EPSM)
             v == VScale(NSub(PiNum, Eps(1)), a)
         IN IF VDot(a, a) = ONE /\ ExpSO3(v) = R THEN v ELSE BADV
    ELSE BADV

LogAmbiguous(R) == MRational(R) /\ MDefined(R) /\ NMul(HALF, NSub(TraceM(R), ONE)) = MONE

(*-------------------------------- SE(3) ----------------------------------*)
(* A rigid transform is a record [R, t] *)
RTMul(a, b) == [R |-> MMul(a.R, b.R), t |-> VAdd(MV(a.R, b.t), a.t)]
RTInv(a) == LET Rt == MT(a.R) IN [R |-> Rt, t |-> VNeg(MV(Rt, a.t))]
RTId == [R |-> I3, t |-> Z3]
RTDefined(a) == MDefined(a.R) /\ VDefined(a.t)

Blocks(A, B, C, D) ==    \* [[A, B], [C, D]]
    Force([i \in 1..(Len(A) + Len(C)) |->
             IF i <= Len(A) THEN A[i] \o B[i] ELSE C[i - Len(A)] \o D[i - Len(A)]])

Ad(a) == Blocks(a.R, Z33, MMul(Cross(a.t), a.R), a.R)

(* xi = <<omega, u>> as a 6-tuple *)
Om(x) == SubSeq(x, 1, 3)
Tr(x) == SubSeq(x, 4, 6)

ExpSE3(x) == [R |-> ExpSO3(Om(x)), t |-> MV(JL(Om(x)), Tr(x))]

LogSE3(a) == LET w == LogSO3(a.R) IN
             IF w = BADV THEN w \o BADV ELSE w \o MV(JLInv(w), a.t)

(* Lower-left block of the left Jacobian of SE(3) (Barfoot's Q):           *)
(* with X=[w], Y=[u]:                                                      *)
(*  Y/2 + (th-sin)/th^3 (XY + YX + XYX)                                    *)
(*  + (th^2+2cos-2)/(2 th^4) (XXY + YXX - 3XYX)                            *)
(*  + (2th - 3sin + th cos)/(2 th^5) (XYXX + XXYX)                         *)
(* For v = phi W (W rational, S^2 = 1-c^2 = |W|^2, th = phi S... sin = S): *)
QL(v, u) ==
    LET k == AngleForm(v)
        Y == Cross(u)
    IN
    CASE k.f = "zero" -> MScale(HALF, Y)
      [] k.f = "eps" ->
           \* sum over n of S(n)/(n+1)!, S(n) = X S(n-1) + Y X^(n-1)
           LET X == Cross(v)
               X2 == MMul(X, X)
               Y1 == MMul(Y, X)
               S2 == MAdd(MMul(X, Y), Y1)
               Y2 == MMul(Y, X2)
               S3 == MAdd(MMul(X, S2), Y2)
               Y3 == MMul(Y2, X)
               S4 == MAdd(MMul(X, S3), Y3)
               S5 == MAdd(MMul(X, S4), MMul(Y3, X))
           IN MAdd(MScale(HALF, Y), MAdd(MScale(<<1, 6>>, S2), MAdd(MScale(<<1, 24>>, S3),
                   MAdd(MScale(<<1, 120>>, S4), MScale(<<1, 720>>, S5)))))
      [] k.f \in {"gen", "pi", "pieps"} ->
           LET W == IF k.f = "gen" THEN Cross(k.w) ELSE Cross(k.a)   \* [v] = K W
               K(e) == CASE k.f = "gen" -> KPhi(k, e) [] k.f = "pi" -> Phi(PISYM, e)
                         [] e = -1 -> InvPiEps
                         [] e = -2 -> NMul(InvPiEps, InvPiEps)
               c == CASE k.f = "gen" -> k.C [] k.f = "pi" -> MONE [] OTHER -> CosPiEps
               s2 == IF k.f = "gen" THEN k.s2 ELSE ONE
               \* th^2 = K^2 s2;  A1 = sin(th)/th
               A1 == CASE k.f = "gen" -> NMul(k.S, K(-1)) [] k.f = "pi" -> ZERO
                       [] OTHER -> NMul(SinEps, K(-1))
               WY == MMul(W, Y)
               YW == MMul(Y, W)
               WYW == MMul(WY, W)
               WWY == MMul(W, WY)
               YWW == MMul(YW, W)
               WYWW == MMul(WYW, W)
               WWYW == MMul(W, WYW)
               \* (th-sin)/th^3 XY = (1-A1)/(K s2) WY
               k1 == NMul(NDiv(NSub(ONE, A1), s2), K(-1))
               k1b == NDiv(NSub(ONE, A1), s2)              \* of XYX
               \* (th^2+2c-2)/(2 th^4) XXY = (K^2 s2 + 2c-2)/(2 K^2 s2^2) WWY
               k2 == NDiv(NAdd(s2, NMul(NMul(TWO, NSub(c, ONE)), K(-2))),
                          NMul(TWO, NMul(s2, s2)))
               \* (2th-3sin+th c)/(2 th^5) XYXX = (2 - 3 A1 + c)/(2 K s2^2) WYWW
               k3 == NMul(NDiv(NAdd(NSub(TWO, NMul(I(3), A1)), c), NMul(TWO, NMul(s2, s2))), K(-1))
           IN MAdd(MScale(HALF, Y),
               MAdd(MScale(k1, MAdd(WY, YW)),
                MAdd(MScale(k1b, WYW),
                 MAdd(MScale(k2, MSub(MAdd(WWY, YWW), MScale(I(3), WYW))),
                      MScale(k3, MAdd(WYWW, WWYW))))))
      [] OTHER -> BAD33

JL6(x) == LET J == JL(Om(x)) IN Blocks(J, Z33, QL(Om(x), Tr(x)), J)
JLInv6(x) ==
    LET Ji == JLInv(Om(x))
        Q == QL(Om(x), Tr(x))
    IN Blocks(Ji, Z33, MNeg(MMul(Ji, MMul(Q, Ji))), Ji)
=============================================================================
