------------------------------- MODULE Noise -------------------------------
(***************************************************************************)
(* Covariances with known inverses, in integers.  U is a product of shears *)
(* (unit lower triangular) and V its inverse; d are scales.  The           *)
(* covariance is C = U diag(d^2) U', and 16 times its inverse              *)
(* P = V' diag(16/d^2) V.                                                  *)
(***************************************************************************)
EXTENDS CubeJac

Transp(A) == Cols(A)
Fresh(n) == [U |-> MId(n), V |-> MId(n), d |-> Force([i \in 1..n |-> 1])]
\* row i gets k times row m
Shear(w, i, m, k) == [w EXCEPT !.U[i] = VAdd(@, VMul(k, w.U[m])),
                               !.V = Force([r \in 1..Len(@) |-> Force([c \in 1..Len(@) |->
                                        IF c = m THEN @[r][c] - k * @[r][i] ELSE @[r][c]])])]
Rescale(w, i, s) == [w EXCEPT !.d[i] = s]
Diag(v) == Force([r \in 1..Len(v) |-> Force([c \in 1..Len(v) |-> IF r = c THEN v[r] ELSE 0])])
Cov(w) == Mul(Mul(w.U, Diag([i \in 1..Len(w.d) |-> w.d[i] * w.d[i]])), Transp(w.U))
Prec16(w) == Mul(Mul(Transp(w.V), Diag([i \in 1..Len(w.d) |-> 16 \div (w.d[i] * w.d[i])])), w.V)
IsDiagonal(w) == w.U = MId(Len(w.d))
Scales == {1, 2, 4}

\* laws
Inverses(w) == Mul(w.U, w.V) = MId(Len(w.d)) /\ Mul(Cov(w), Prec16(w)) = MScale(16, MId(Len(w.d)))
Symmetric(A) == A = Transp(A)
\* 16 times the squared norm of a normalised residual r
Weighted16(w, r) == LET c == Mul(Prec16(w), ColOf(r)) IN DotN(r, Cols(c)[1], Len(r))
=============================================================================
