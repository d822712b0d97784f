------------------------------ MODULE ExprRun ------------------------------
(***************************************************************************)
(* Executes the programs of a file on the machine of Expr.tla and prints   *)
(* the result of each, to be compared with the implementation.             *)
(* Program: [id, toks, kinds (of the leaves), vals (sequences of leaf      *)
(* choices)].  Token: [o: operation, i: leaf number or plain number index] *)
(***************************************************************************)
EXTENDS Expr, Json, IOUtils

Progs == JsonDeserialize(IOEnv.PROGS)

VARIABLES p, n, pc, stk,
          big    \* bound of the coefficients seen
vars == <<p, n, pc, stk, big>>

Prog == Progs[p]
NL == Len(Prog.kinds)
Coord(i) == LeafCoord(Prog.kinds[i], Prog.vals[n][i])

Init == /\ p \in 1..Len(Progs)
        /\ n = 0
        /\ pc = 0
        /\ stk = <<>>
        /\ big = 0

Top(d) == stk[Len(stk) - d]
Replace(d, e) == SubSeq(stk, 1, Len(stk) - d) \o <<e>>

(*------------------------------ magnitudes -------------------------------*)
(* A bound of the coefficients which occur in the values of the machine,   *)
(* kept in order to bound the terms that truncation in eps leaves out      *)
Ceil(r) == IF r[2] = 0 THEN 0 ELSE 1 + (IAbs(r[1]) \div r[2])
RECURSIVE MaxCoef(_, _), MaxOver(_, _)
MaxCoef(P, S) == IF S = {} THEN 0
                 ELSE LET m == CHOOSE m \in S : TRUE
                          c == Ceil(P[m])
                          r == MaxCoef(P, S \ {m})
                      IN IF c > r THEN c ELSE r
Mag(x) == IF Len(x) = 2 THEN Ceil(x)
          ELSE LET a == Ceil(RPart(x))
                   b == MaxCoef(x[3], DOMAIN x[3])
               IN IF a > b THEN a ELSE b
MaxOver(v, i) == IF i = 0 THEN 0
                 ELSE LET a == Mag(v[i])
                          b == MaxOver(v, i - 1)
                      IN IF a > b THEN a ELSE b
VecMag(v) == MaxOver(v, Len(v))
EntryMag(e) == CASE e.k = "R" -> VecMag(e.v[1] \o e.v[2] \o e.v[3])
                 [] e.k = "T" -> VecMag(e.v.R[1] \o e.v.R[2] \o e.v.R[3] \o e.v.t)
                 [] e.k = "C" -> 1
                 [] OTHER -> VecMag(e.v)

Choose == /\ pc = 0
          /\ n' \in 1..Len(Prog.vals)
          /\ pc' = 1
          /\ UNCHANGED <<p, stk, big>>

Step == /\ pc > 0
        /\ pc <= Len(Prog.toks)
        /\ LET tk == Prog.toks[pc]
           IN stk' = CASE tk.o = "leaf" ->
                          Append(stk, LeafEntry(Prog.kinds[tk.i], Coord(tk.i), NL, tk.i))
                       [] tk.o = "const" -> Append(stk, ConstEntry(tk.k, NL))
                       [] tk.o \in UnaryOps -> Replace(1, Apply1(tk.o, Top(0)))
                       [] tk.o \in PlainOps ->
                          Replace(1, ApplyK(tk.o, Top(0), Scalars[1 + (tk.i % Len(Scalars))]))
                       [] tk.o \in BinaryOps -> Replace(2, Apply2(tk.o, Top(1), Top(0)))
                       [] tk.o = "pack" ->    \* the top tk.i entries become a compound
                          LET es == SubSeq(stk, Len(stk) - tk.i + 1, Len(stk))
                          IN Replace(tk.i,
                                [k |-> "C",
                                 v |-> Force([m \in 1..tk.i |-> [k |-> es[m].k, v |-> es[m].v]]),
                                 j |-> Force([m \in 1..NL |->
                                          IF \A q \in 1..tk.i : es[q].j[m] = <<>> THEN <<>>
                                          ELSE StackJ(es, m, Dim(Prog.kinds[m]))]),
                                 amb |-> \E m \in 1..tk.i : es[m].amb])
        /\ LET m == EntryMag(stk'[Len(stk')]) IN big' = IF m > big THEN m ELSE big
        /\ pc' = pc + 1
        /\ UNCHANGED <<p, n>>

Next == Choose \/ Step

(*------------------------------- output ----------------------------------*)
VecJ(v) == Force([i \in 1..Len(v) |-> NumJson(v[i])])
MatJ(A) == Force([i \in 1..Len(A) |-> VecJ(A[i])])
ValJ(k, v) == CASE k = "R" -> MatJ(v)
                [] k = "T" -> MatJ(v.R) \o <<VecJ(v.t)>>
                [] k = "C" -> <<>>
                [] OTHER -> <<VecJ(v)>>
Result == LET e == stk[1] IN
    [p |-> Prog.id, n |-> n, k |-> e.k, amb |-> e.amb, big |-> big,
     leaves |-> Force([i \in 1..NL |-> VecJ(Coord(i))]),
     val |-> IF e.k = "C" THEN Force([m \in 1..Len(e.v) |-> [k |-> e.v[m].k, val |-> ValJ(e.v[m].k, e.v[m].v)]])
             ELSE ValJ(e.k, e.v),
     jac |-> Force([i \in 1..NL |-> MatJ(e.j[i])])]

Finished == pc = Len(Prog.toks) + 1
Emit == Finished => PrintT("@" \o ToJson(Result))
OneResult == Finished => Len(stk) = 1
=============================================================================
