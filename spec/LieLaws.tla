------------------------------ MODULE LieLaws ------------------------------
(***************************************************************************)
(* Checks the oracle itself: the formulas of Lie.tla satisfy the defining  *)
(* identities of SO(3) and SE(3) on every element of the pools.            *)
(***************************************************************************)
EXTENDS Pools

VARIABLES w, u, w2

AllRotVecs == GenRotVecs \o MultRotVecs \o PiRotVecs \o EpsRotVecs \o <<Z3>> \o PiEpsRotVecs

\* the elements are chosen in two steps, so that TLC's workers share the work
None == <<>>
Init == w = None /\ u = None /\ w2 = None
Next == \/ /\ w = None
           /\ w' \in {AllRotVecs[i] : i \in 1..Len(AllRotVecs)}
           /\ UNCHANGED <<u, w2>>
        \/ /\ w # None /\ u = None
           /\ u' \in {TransVecs[i] : i \in 1..4}
           /\ w2' \in {GenRotVecs[i] : i \in {1, 4, 9}}
           /\ UNCHANGED w
Chosen == u # None

Form == AngleForm(w).f
Principal == Form # "gen" \/ AngleForm(w).k = 1
Rm == ExpSO3(w)
X == w \o u
T == ExpSE3(X)
R2 == ExpSO3(w2)
T2 == [R |-> R2, t |-> u]
adx == Blocks(Cross(w), Z33, Cross(u), Cross(w))
Det(M) == VDot(M[1], <<NSub(NMul(M[2][2], M[3][3]), NMul(M[2][3], M[3][2])),
                       NSub(NMul(M[2][3], M[3][1]), NMul(M[2][1], M[3][3])),
                       NSub(NMul(M[2][1], M[3][2]), NMul(M[2][2], M[3][1]))>>)

FormsKnown == Chosen => (Form # "none")
Orthonormal == Chosen => (MMul(Rm, MT(Rm)) = I3)
Det1 == Chosen => (Det(Rm) = ONE)
FixesAxis == Chosen => (MV(Rm, w) = w)
LogExp == Chosen => (IF Form = "pi" THEN LogSO3(Rm) \in {w, VNeg(w)} ELSE Principal => LogSO3(Rm) = w)
ExpLog == Chosen => (ExpSO3(LogSO3(R2)) = R2)
JacDef == Chosen => (Rm = MAdd(I3, MMul(Cross(w), JL(w))))
JacInv == Chosen => (Principal => MMul(JL(w), JLInv(w)) = I3)
Jac6Def == Chosen => (Ad(T) = MAdd(MId(6), MMul(adx, JL6(X))))
Jac6Inv == Chosen => (Principal => MMul(JL6(X), JLInv6(X)) = MId(6))
JFix == Chosen => (MV(JL6(X), X) = X)
Log6Exp6 == Chosen => (Form # "pi" /\ Principal => LogSE3(T) = X)
AdHom == Chosen => (Form \notin {"eps", "pieps"} => Ad(RTMul(T2, T2)) = MMul(Ad(T2), Ad(T2)))
InvLaw == Chosen => (RTMul(T2, RTInv(T2)) = RTId)
AdInv == Chosen => (MMul(Ad(T2), Ad(RTInv(T2))) = MId(6))
=============================================================================
