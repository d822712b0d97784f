-------------------------------- MODULE Num --------------------------------
(***************************************************************************)
(* Exact numbers for the specification of wave_geometry.                   *)
(*                                                                         *)
(* TLC has no reals.  A number here is a Laurent polynomial with rational  *)
(* coefficients over symbols:                                              *)
(*                                                                         *)
(*   <<c, d>>  with |c/d| < 1 : the constant  theta/sin(theta),            *)
(*                              theta = acos(c/d)                          *)
(*   <<-1, 1>>                : the constant  pi                           *)
(*   <<2, 1>>                 : an infinitesimal eps (series in eps are    *)
(*                              truncated after eps^2)                     *)
(*                                                                         *)
(* which is exactly enough to write down logarithms, exponentials and all  *)
(* their derivatives at rational rotations, at rotations by pi, and in a   *)
(* neighbourhood of the identity.  Only the harness which compares a       *)
(* number with the output of the implementation replaces the symbols by    *)
(* floating point values.                                                  *)
(*                                                                         *)
(* Representation: <<n, d>> is the rational n/d (reduced, d > 0);          *)
(* <<n, d, P>> is n/d + sum of P[m]*m over monomials m in DOMAIN P, where  *)
(* a monomial is a function from symbols to non-zero exponents.            *)
(* <<0, 0>> is "undefined": the result cannot be represented (TLC integers *)
(* have 32 bits) or does not exist.  It propagates.                        *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

\* TLC integers have 32 bits: |numerator|, denominator <= LIM, and no product
\* that could exceed 2*LIM is ever formed
LIM == 1000000000
SMALL == 30000

IAbs(a) == IF a < 0 THEN -a ELSE a

RECURSIVE GCD(_, _)
GCD(a, b) == IF b = 0 THEN a ELSE GCD(b, a % b)

BAD == <<0, 0>>
ZERO == <<0, 1>>
ONE == <<1, 1>>
TWO == <<2, 1>>
MONE == <<-1, 1>>
HALF == <<1, 2>>

I(n) == <<n, 1>>

(* Reduce the rational n/d, d # 0 *)
Reduce(n, d) ==
    IF n = 0 THEN ZERO
    ELSE LET g == GCD(IAbs(n), IAbs(d))
             nn == IF (d < 0) # (n < 0) THEN -(IAbs(n) \div g) ELSE IAbs(n) \div g
             dd == IAbs(d) \div g
         IN IF nn > LIM \/ nn < -LIM \/ dd > LIM THEN BAD ELSE <<nn, dd>>

Rat(n, d) == IF d = 0 THEN BAD ELSE Reduce(n, d)

(*------------------------- rational arithmetic --------------------------*)

Fits(p, q) == p = 0 \/ (IAbs(q) <= LIM \div IAbs(p))      \* |p*q| <= LIM
IsSmall(a) == a[1] <= SMALL /\ a[1] >= -SMALL /\ a[2] <= SMALL

RAdd(a, b) ==
    IF a[2] = 0 \/ b[2] = 0 THEN BAD
    ELSE IF a[1] = 0 THEN b
    ELSE IF b[1] = 0 THEN a
    ELSE IF a[2] = b[2] THEN Reduce(a[1] + b[1], a[2])
    ELSE IF IsSmall(a) /\ IsSmall(b) THEN Reduce(a[1] * b[2] + b[1] * a[2], a[2] * b[2])
    ELSE LET g == GCD(a[2], b[2])
             p == a[2] \div g
             q == b[2] \div g
         IN IF Fits(a[1], q) /\ Fits(b[1], p) /\ Fits(p, b[2])
            THEN Reduce(a[1] * q + b[1] * p, p * b[2])
            ELSE BAD

RMul(a, b) ==
    IF a[2] = 0 \/ b[2] = 0 THEN BAD
    ELSE IF a[1] = 0 \/ b[1] = 0 THEN ZERO
    ELSE IF IsSmall(a) /\ IsSmall(b) THEN Reduce(a[1] * b[1], a[2] * b[2])
    ELSE LET g == GCD(IAbs(a[1]), b[2])
             h == GCD(IAbs(b[1]), a[2])
             a1 == IF a[1] < 0 THEN -((-a[1]) \div g) ELSE a[1] \div g
             b1 == IF b[1] < 0 THEN -((-b[1]) \div h) ELSE b[1] \div h
             a2 == a[2] \div h
             b2 == b[2] \div g
         IN IF Fits(a1, b1) /\ Fits(a2, b2) THEN <<a1 * b1, a2 * b2>> ELSE BAD

(*------------------------------- symbols --------------------------------*)

EPS == <<2, 1>>
PISYM == <<-1, 1>>

(* Truncation: monomials of degree > 4 in eps vanish *)
Vanishes(m) == EPS \in DOMAIN m /\ m[EPS] > 4

IsRoot(s) == s[2] = 0

MonoMul(m1, m2) ==
    LET dom == DOMAIN m1 \cup DOMAIN m2
        e(s) == (IF s \in DOMAIN m1 THEN m1[s] ELSE 0) +
                (IF s \in DOMAIN m2 THEN m2[s] ELSE 0)
    IN [s \in {t \in dom : e(t) # 0 /\ ~(IsRoot(t) /\ e(t) = 2)} |-> e(s)]

\* the rational factor which appears when two monomials are multiplied:
\* sqrt(n)^2 = n
RECURSIVE RootProd(_)
RootProd(S) == IF S = {} THEN ONE
               ELSE LET x == CHOOSE x \in S : TRUE IN RMul(<<x[1], 1>>, RootProd(S \ {x}))
MonoFac(m1, m2) == RootProd({s \in (DOMAIN m1 \cap DOMAIN m2) : IsRoot(s)})

NOPOLY == [m \in {} |-> ZERO]

Poly(x) == IF Len(x) = 3 THEN x[3] ELSE NOPOLY

(* Build a number from rational part r and polynomial part P *)
Mk(r, P) ==
    LET keep == {m \in DOMAIN P : P[m] # ZERO /\ ~Vanishes(m)}
        bad == r = BAD \/ \E m \in keep : P[m] = BAD
    IN IF bad THEN BAD
       ELSE IF keep = {} THEN r
       ELSE <<r[1], r[2], [m \in keep |-> P[m]]>>

IsRat(x) == Len(x) = 2
Defined(x) == x[2] # 0

RPart(x) == <<x[1], x[2]>>

(*--------------------------- number arithmetic --------------------------*)

NAdd(a, b) ==
    IF Len(a) = 2 /\ Len(b) = 2 THEN RAdd(a, b)
    ELSE LET Pa == Poly(a)
             Pb == Poly(b)
             dom == DOMAIN Pa \cup DOMAIN Pb
             c(m) == RAdd(IF m \in DOMAIN Pa THEN Pa[m] ELSE ZERO,
                          IF m \in DOMAIN Pb THEN Pb[m] ELSE ZERO)
         IN Mk(RAdd(RPart(a), RPart(b)), [m \in dom |-> c(m)])

RECURSIVE SumSet(_, _)
SumSet(f, S) == IF S = {} THEN ZERO
                ELSE LET x == CHOOSE x \in S : TRUE
                     IN RAdd(f[x], SumSet(f, S \ {x}))

NMul(a, b) ==
    IF Len(a) = 2 /\ Len(b) = 2 THEN RMul(a, b)
    ELSE IF a[2] = 0 \/ b[2] = 0 THEN BAD
    ELSE IF a = ZERO \/ b = ZERO THEN ZERO
    ELSE LET U == [s \in {} |-> 0]    \* the monomial 1
             ext(x) == IF x[1] = 0 THEN Poly(x) ELSE (U :> RPart(x)) @@ Poly(x)
             Pa == ext(a)
             Pb == ext(b)
             pairs == (DOMAIN Pa) \X (DOMAIN Pb)
             prod == [p \in pairs |-> MonoMul(p[1], p[2])]
             coef == [p \in pairs |-> RMul(MonoFac(p[1], p[2]), RMul(Pa[p[1]], Pb[p[2]]))]
             mons == {prod[p] : p \in pairs}
             c == [m \in mons |-> SumSet(coef, {p \in pairs : prod[p] = m})]
         IN Mk(IF U \in mons THEN c[U] ELSE ZERO, [m \in mons \ {U} |-> c[m]])

NNeg(a) == IF Len(a) = 2 THEN <<-a[1], a[2]>>
           ELSE <<-a[1], a[2], [m \in DOMAIN a[3] |-> <<-(a[3][m][1]), a[3][m][2]>>]>>

NSub(a, b) == NAdd(a, NNeg(b))

(* Reciprocal: of a rational, of a single monomial, and of r + O(eps) *)
NInv(a) ==
    IF a[2] = 0 \/ a = ZERO THEN BAD
    ELSE IF Len(a) = 2 THEN (IF a[1] < 0 THEN <<-a[2], -a[1]>> ELSE <<a[2], a[1]>>)
    ELSE IF a[1] = 0 /\ Cardinality(DOMAIN a[3]) = 1 THEN
         LET m == CHOOSE m \in DOMAIN a[3] : TRUE
             r == a[3][m]
         IN IF EPS \in DOMAIN m THEN BAD
            ELSE \* 1/(r m), where roots are their own inverses up to a rational factor
                 LET ri == IF r[1] < 0 THEN <<-r[2], -r[1]>> ELSE <<r[2], r[1]>>
                     f == RootProd({s \in DOMAIN m : IsRoot(s)})
                     q == RMul(ri, <<f[2], f[1]>>)
                 IN IF ~(f[2] = 1 /\ q[2] # 0) THEN BAD
                    ELSE <<0, 1, ([s \in DOMAIN m |-> IF IsRoot(s) THEN 1 ELSE -m[s]] :> q)>>
    ELSE IF a[1] # 0 /\ (\A m \in DOMAIN a[3] : EPS \in DOMAIN m /\ m[EPS] >= 1) THEN
         \* 1/(r+e) = (1/r)(1 - q + q^2 - q^3 + q^4), q = e/r
         LET r == RPart(a)
             ri == IF r[1] < 0 THEN <<-r[2], -r[1]>> ELSE <<r[2], r[1]>>
             e == NMul(NSub(a, r), ri)
             e2 == NMul(e, e)
         IN NMul(ri, NMul(NSub(ONE, e), NAdd(NAdd(ONE, e2), NMul(e2, e2))))
    ELSE BAD

NDiv(a, b) == IF Len(b) = 2 /\ b[1] # 0 /\ b[2] # 0
              THEN NMul(a, IF b[1] < 0 THEN <<-b[2], -b[1]>> ELSE <<b[2], b[1]>>)
              ELSE NMul(a, NInv(b))

(* The symbol for theta/sin(theta), theta = acos(c), raised to power k.    *)
(* c = -1 stands for pi itself.                                            *)
Phi(c, k) == <<0, 1, ([s \in {c} |-> k] :> ONE)>>
Eps(k) == <<0, 1, ([s \in {EPS} |-> k] :> ONE)>>
PiNum == Phi(PISYM, 1)
PiEpsNum == NSub(PiNum, Eps(1))
\* 1/(pi - eps)
InvPiEps == NAdd(Phi(PISYM, -1), NAdd(NMul(Phi(PISYM, -2), Eps(1)), NAdd(NMul(Phi(PISYM, -3), Eps(2)),
                 NAdd(NMul(Phi(PISYM, -4), Eps(3)), NMul(Phi(PISYM, -5), Eps(4))))))

(* Integer square root by search (perfect squares only), -1 if none *)
RECURSIVE ISqrtBetween(_, _, _)
ISqrtBetween(n, lo, hi) ==      \* binary search of k with k*k = n in lo..hi
    IF lo > hi THEN -1
    ELSE LET k == (lo + hi) \div 2
         IN IF k * k = n THEN k
            ELSE IF k * k > n THEN ISqrtBetween(n, lo, k - 1) ELSE ISqrtBetween(n, k + 1, hi)
ISqrt(n) == ISqrtBetween(n, 0, 40000)

(* n = r * f^2 with small square factors removed from r: <<r, f>> *)
RECURSIVE SquareFree(_, _, _)
SquareFree(n, k, f) == IF k > 30 \/ k * k > n THEN <<n, f>>
                       ELSE IF n % (k * k) = 0 THEN SquareFree(n \div (k * k), k, f * k)
                       ELSE SquareFree(n, k + 1, f)

(* Square root of a rational *)
NSqrt(a) ==
    IF Len(a) # 2 \/ a[2] = 0 \/ a[1] < 0 THEN BAD
    ELSE IF a = ZERO THEN ZERO
    ELSE LET p == ISqrt(a[1])
             q == ISqrt(a[2])
         IN IF p >= 0 /\ q >= 0 THEN <<p, q>>
            ELSE IF ~Fits(a[1], a[2]) THEN BAD
            ELSE \* sqrt(n/d) = sqrt(n d)/d
                 LET sf == SquareFree(a[1] * a[2], 2, 1)
                     f == Reduce(sf[2], a[2])
                 IN IF f[2] = 0 THEN BAD ELSE <<0, 1, ([s \in {<<sf[1], 0>>} |-> 1] :> f)>>

(* Sign comparisons, for rationals *)
RPos(a) == Len(a) = 2 /\ a[2] # 0 /\ a[1] > 0
RLess(a, b) == LET d == RAdd(b, <<-a[1], a[2]>>) IN d[2] # 0 /\ d[1] > 0

(* JSON-friendly form: <<n, d, <<  <<coefn, coefd, << <<cn, cd, exponent>> ... >> >> ... >> >> *)
RECURSIVE SetSeq(_)
SetSeq(S) == IF S = {} THEN <<>>
             ELSE LET x == CHOOSE x \in S : TRUE IN <<x>> \o SetSeq(S \ {x})
NumJson(x) ==
    IF Len(x) = 2 THEN x
    ELSE <<x[1], x[2],
           SetSeq({<<x[3][m][1], x[3][m][2],
                     SetSeq({<<s[1], s[2], m[s]>> : s \in DOMAIN m})>> : m \in DOMAIN x[3]})>>
=============================================================================
