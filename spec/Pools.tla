------------------------------- MODULE Pools -------------------------------
(***************************************************************************)
(* Values from which leaves of expressions are drawn: exact rotations      *)
(* (generic, by pi, identity, infinitesimal, almost pi), transforms,       *)
(* vectors with rational norm, tangent vectors.                            *)
(***************************************************************************)
EXTENDS Lie

R(n, d) == Rat(n, d)
V(a, b, c) == <<I(a), I(b), I(c)>>
VQ(a, b, c, d) == <<Rat(a, d), Rat(b, d), Rat(c, d)>>

(* phi_c * w with |w| = sqrt(1-c^2) *)
PhiV(cn, cd, w) == VScale(Phi(<<cn, cd>>, 1), w)

(* rotation vectors with angle strictly between 0 and pi *)
GenRotVecs == <<
    PhiV(3, 5, VQ(0, 0, 4, 5)),             \* about z
    PhiV(-3, 5, VQ(4, 0, 0, 5)),            \* about x, > pi/2
    PhiV(0, 1, VQ(0, -1, 0, 1)),            \* about -y by pi/2
    PhiV(1, 2, VQ(1, 1, 1, 2)),             \* about (1,1,1) by pi/3
    PhiV(-1, 2, VQ(1, -1, 1, 2)),           \* by 2pi/3
    PhiV(3, 5, VQ(4, 8, -8, 15)),           \* about (1,2,-2)
    PhiV(4, 5, VQ(-2, 2, 1, 5)),            \* about (-2,2,1)
    PhiV(-4, 5, VQ(0, 9, 12, 25)),          \* about (0,3,4)
    PhiV(-7, 25, VQ(24, 0, 0, 25)),
    PhiV(1, 3, VQ(2, 2, 0, 3)),             \* about (1,1,0): norm irrational but norm^2 = 8/9
    PhiV(0, 1, VQ(2, -1, 2, 3)),
    PhiV(-1, 3, VQ(0, 2, -2, 3)),
    PhiV(7, 25, VQ(8, -16, 16, 25)),
    PhiV(-3, 5, VQ(8, 4, 8, 15)),
    PhiV(-24, 25, VQ(7, 0, 0, 25)),         \* close to pi
    PhiV(24, 25, VQ(0, 0, -7, 25)) >>       \* rather small

(* multiples of the above: rotations by more than pi *)
MultRotVecs == << VScale(TWO, GenRotVecs[1]), VScale(TWO, GenRotVecs[5]), VScale(I(3), GenRotVecs[6]),
                  VScale(TWO, GenRotVecs[2]), VScale(I(3), GenRotVecs[10]) >>

PiRotVecs == << VScale(PiNum, V(1, 0, 0)), VScale(PiNum, V(0, -1, 0)), VScale(PiNum, V(0, 0, 1)),
                VScale(PiNum, VQ(1, 2, -2, 3)), VScale(PiNum, VQ(0, 3, 4, 5)),
                VScale(PiNum, VQ(-2, 1, 2, 3)) >>

PiEpsRotVecs == << VScale(NSub(PiNum, Eps(1)), V(0, 0, 1)),
                   VScale(NSub(PiNum, Eps(1)), V(-1, 0, 0)),
                   VScale(NSub(PiNum, Eps(1)), VQ(1, 2, -2, 3)),
                   VScale(NSub(PiNum, Eps(1)), VQ(0, -3, 4, 5)) >>

EpsRotVecs == << VScale(Eps(1), V(1, 0, 0)), VScale(Eps(1), V(1, -2, 2)),
                 VScale(Eps(1), V(-1, 2, 3)), VScale(Eps(1), V(0, 0, -2)) >>

TransVecs == << V(1, 2, 2), V(0, 3, 4), V(-2, 3, 6), V(4, -4, 7), V(2, -1, -2), V(0, 0, -5),
                V(-3, 0, 4), VQ(1, -2, 2, 3), V(1, 4, -8), V(6, 2, 3), VQ(3, 0, -4, 2), V(0, 1, 0) >>

Scalars == << R(1, 2), R(-2, 1), R(3, 5), R(3, 1), R(-4, 5), R(5, 2), R(-1, 1), R(1, 3) >>
=============================================================================
