----------------------------- MODULE NoiseRun ------------------------------
(***************************************************************************)
(* Noise models are built from standard deviations or covariances, copied, *)
(* and asked for their covariance and the square root of its inverse.      *)
(* A state is a set of covariances under construction and the models       *)
(* made of them so far.                                                    *)
(***************************************************************************)
EXTENDS Noise, Json

CONSTANTS Steps
VARIABLES stmt,    \* what is being done
          cov,     \* covariances being built, one per size
          model,   \* noise models: size, model, what it stands for
          hist
vars == <<cov, model, stmt, hist>>
Sizes == <<1, 2, 3, 4, 6, 7, 9>>

Init == /\ cov = Force([i \in 1..Len(Sizes) |-> Fresh(Sizes[i])])
        /\ model = <<>>
        /\ hist = <<>>
        /\ stmt = [c |-> "-", s |-> 0, i |-> 0, m |-> 0]
SmallM(A, m) == \A r \in 1..Len(A) : SmallVec(A[r], m)
How == {"full", "std", "params"}
Idle == [c |-> "-", s |-> 0, i |-> 0, m |-> 0]
\* one of a few changes of the covariance of a size, or what is done with it
Start == /\ stmt.c = "-" /\ Len(hist) < Steps
         /\ \E s \in 1..Len(Sizes) : \E c \in {"scale", "shear", "shear2", "shear3", "fresh", "full", "full2", "std", "params", "copy"} :
              stmt' = [Idle EXCEPT !.c = c, !.s = s]
         /\ UNCHANGED <<cov, model, hist>>
Rows == /\ stmt.c \in {"scale", "shear", "shear2", "shear3"} /\ stmt.i = 0
        /\ \E i \in 1..Sizes[stmt.s] : stmt' = IF Sizes[stmt.s] = 1 THEN [stmt EXCEPT !.i = i, !.c = "scale"]
                                              ELSE IF i = 1 /\ stmt.c # "scale" THEN [stmt EXCEPT !.i = Sizes[stmt.s]]
                                              ELSE [stmt EXCEPT !.i = i]
        /\ UNCHANGED <<cov, model, hist>>
Change == /\ stmt.c \in {"scale", "shear", "shear2", "shear3", "fresh"}
          /\ LET s == stmt.s i == stmt.i
             IN CASE stmt.c = "fresh" -> cov' = [cov EXCEPT ![s] = [Fresh(Sizes[s]) EXCEPT !.d = cov[s].d]] /\ stmt' = Idle
                  [] stmt.c = "scale" -> i > 0 /\ (\E k \in Scales : cov' = [cov EXCEPT ![s] = Rescale(@, i, k)]) /\ stmt' = Idle
                  [] OTHER -> /\ i > 0
                              /\ \E m \in 1..i - 1 : \E k \in {-2, -1, 1, 2} :
                                   LET w == Shear(cov[s], i, m, k)
                                   IN IF SmallM(w.U, 4) /\ SmallM(w.V, 6) THEN cov' = [cov EXCEPT ![s] = w] ELSE UNCHANGED cov
                              /\ stmt' = IF stmt.c = "shear" THEN Idle ELSE [stmt EXCEPT !.i = 0, !.c = "shear"]
          /\ UNCHANGED <<model, hist>>
Build == /\ stmt.c \in How \cup {"full2"}
         /\ LET s == stmt.s
                how == IF stmt.c = "full2" THEN "full" ELSE stmt.c
                w == IF how = "full" THEN cov[s] ELSE [Fresh(Sizes[s]) EXCEPT !.d = cov[s].d]
            IN /\ model' = Append(model, [s |-> Sizes[s], w |-> w, m |-> IF how = "full" THEN "full" ELSE "diag"])
               /\ hist' = Append(hist, [c |-> "build", how |-> how, s |-> Sizes[s], std |-> w.d, diag |-> IsDiagonal(w),
                                        cov |-> Cov(w), inv16 |-> Prec16(w)])
         /\ stmt' = Idle
         /\ UNCHANGED cov
Copy == /\ stmt.c = "copy"
        /\ \E m \in 1..Len(model) : \E how \in {"copy", "move", "uncertain", "heap"} :
             /\ model' = Append(model, model[m])
             /\ hist' = Append(hist, [c |-> "copy", how |-> how, m |-> m])
        /\ stmt' = Idle
        /\ UNCHANGED cov
Nothing == /\ stmt.c = "copy" /\ model = <<>>
           /\ stmt' = Idle
           /\ UNCHANGED <<cov, model, hist>>
Next == \/ Start \/ Rows \/ Change \/ Build \/ Copy \/ Nothing
        \/ stmt.c = "-" /\ Len(hist) = Steps /\ stmt' = [Idle EXCEPT !.c = "end"] /\ UNCHANGED <<cov, model, hist>>
AtEnd == stmt.c = "end"
Sound == AtEnd => \A m \in 1..Len(model) : Inverses(model[m].w) /\ Symmetric(Cov(model[m].w))
Diagonals == AtEnd => \A m \in 1..Len(model) : model[m].m = "diag" => IsDiagonal(model[m].w)
Emit == AtEnd => PrintT("@" \o ToJson(hist))
=============================================================================
