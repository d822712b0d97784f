------------------------------ MODULE Factors ------------------------------
(***************************************************************************)
(* A factor graph: variables which store values, measurement functors (    *)
(* programs of operations over parameters), factors made of a functor, a   *)
(* measurement with noise and variables, and objects passed as parameters. *)
(* Evaluating a factor depends on the parameters only, and changes nothing.*)
(***************************************************************************)
EXTENDS Noise, Json

CONSTANTS Steps
VARIABLES fun,    \* functors [ps: kinds, body, es: entries (kind only), outs: result entries, done]
          var,    \* stored variables [k, v]
          par,    \* objects used as parameters [k, v]
          fac,    \* factors [f, vs, z, w, std]
          stmt, hist
vars == <<fun, var, par, fac, stmt, hist>>

VarKinds == <<"V", "V", "T", "R", "P", "W", "X", "V">>
ParKinds == <<"V", "V", "V", "T", "T", "R", "R", "P", "P", "W", "W", "X", "X">>
Kinds == {"V", "T", "R", "P", "W", "X"}
Elem == {"V", "S", "X", "W"}
Idle == [c |-> "-", o |-> "-", ks |-> <<>>, a |-> <<>>, n |-> 0]
Obj(k, n) == [k |-> k, v |-> PoolValue(k, n)]
Init == /\ \E s \in {<<3, 1, 4, 1, 5, 9, 2, 6>>, <<0, 5, 2, 3, 8, 4, 7, 1>>} : \E m \in 0..5 :
             /\ var = Force([i \in 1..Len(VarKinds) |-> Obj(VarKinds[i], s[i] + m)])
             /\ par = Force([i \in 1..Len(ParKinds) |-> Obj(ParKinds[i], 3 * i + s[1 + (i % 8)] + 5 * m)])
        /\ fun = <<>> /\ fac = <<>> /\ stmt = Idle
        /\ hist = <<[c |-> "init", var |-> var, par |-> par]>>
Log(h) == hist' = Append(hist, h)

(*-------------------------------- functors -------------------------------*)
Ops1 == {<<"neg", k, k>> : k \in {"V", "W", "X"}} \cup {<<"kmul", k, k>> : k \in Elem} \cup
        {<<"sqn", "V", "S">>, <<"inv", "R", "R">>, <<"inv", "T", "T">>, <<"rotof", "T", "R">>, <<"transof", "T", "V">>,
         <<"inv", "T", "T">>, <<"sqn", "V", "S">>, <<"neg", "S", "S">>}
Ops2 == {<<o, k, k, k>> : o \in {"add", "sub"}, k \in Elem} \cup
        {<<"scale", "S", k, k>> : k \in {"V", "W", "X"}} \cup
        {<<"prod", "S", "S", "S">>, <<"dot", "V", "V", "S">>, <<"rot", "R", "V", "V">>, <<"trf", "T", "V", "V">>,
         <<"comp", "R", "R", "R">>, <<"comp", "T", "T", "T">>, <<"sub", "P", "P", "V">>, <<"rot", "R", "V", "V">>,
         <<"trf", "T", "V", "V">>, <<"sub", "P", "P", "V">>}
Last == fun[Len(fun)]
Open == Len(fun) > 0 /\ ~Last.done
Has(f, k) == \E i \in 1..Len(f.es) : f.es[i] = k
NewFun == /\ ~Open /\ stmt.c = "newfun"
          /\ \E n \in 1..3 : \E k, l, m \in Kinds :
               fun' = Append(fun, [ps |-> SubSeq(<<k, l, m>>, 1, n), body |-> <<>>, es |-> SubSeq(<<k, l, m>>, 1, n),
                                   outs |-> <<>>, done |-> FALSE, len |-> 3 + ((n + Len(hist)) % 4)])
          /\ stmt' = Idle
          /\ UNCHANGED <<var, par, fac, hist>>
\* the next operation of the functor being written, its operands one at a time
Write == /\ Open /\ stmt.c = "-" /\ Len(Last.body) < Last.len
         /\ \/ \E u \in Ops1 : Has(Last, u[2]) /\ \E c \in (IF u[1] = "kmul" THEN 1..3 ELSE {0}) :
                 stmt' = [c |-> "op", o |-> u[1], ks |-> <<u[2]>>, a |-> <<>>, n |-> c]
            \/ \E u \in Ops2 : Has(Last, u[2]) /\ Has(Last, u[3]) /\
                 stmt' = [c |-> "op", o |-> u[1], ks |-> <<u[2], u[3]>>, a |-> <<>>, n |-> 0]
            \/ \E n \in 1..3 : stmt' = [c |-> "op", o |-> "lit", ks |-> <<>>, a |-> <<>>, n |-> n]
         /\ UNCHANGED <<fun, var, par, fac, hist>>
\* a recent entry is used more likely than an old one
Operand == /\ stmt.c = "op" /\ Len(stmt.a) < Len(stmt.ks)
           /\ \E i \in 1..Len(Last.es) : /\ Last.es[i] = stmt.ks[Len(stmt.a) + 1]
                                         /\ stmt' = [stmt EXCEPT !.a = Append(@, i)]
           /\ UNCHANGED <<fun, var, par, fac, hist>>
ResultKind(o, ks) == IF o = "lit" THEN "V"
                     ELSE LET u == CHOOSE u \in Ops1 \cup Ops2 : u[1] = o /\ SubSeq(u, 2, Len(u) - 1) = ks IN u[Len(u)]
Append1 == /\ stmt.c = "op" /\ Len(stmt.a) = Len(stmt.ks)
           /\ fun' = [fun EXCEPT ![Len(fun)].body = Append(@, [o |-> stmt.o, n |-> stmt.n, a |-> stmt.a]),
                                 ![Len(fun)].es = Append(@, ResultKind(stmt.o, stmt.ks))]
           /\ stmt' = Idle
           /\ UNCHANGED <<var, par, fac, hist>>
\* its result: an expression, or several
IsOp(f, i) == i > Len(f.ps) /\ f.body[i - Len(f.ps)].o # "lit" /\ f.es[i] \in Elem
Result == /\ Open /\ stmt.c = "-" /\ Len(Last.body) = Last.len
          /\ \E n \in {1, 1, 2, 3} : stmt' = [Idle EXCEPT !.c = "outs", !.n = n]
          /\ UNCHANGED <<fun, var, par, fac, hist>>
Out == /\ stmt.c = "outs" /\ Len(stmt.a) < stmt.n
       /\ \E i \in 1..Len(Last.es) : IsOp(Last, i) /\ stmt' = [stmt EXCEPT !.a = Append(@, i)]
       /\ UNCHANGED <<fun, var, par, fac, hist>>
RECURSIVE Uses(_, _, _)     \* the parameters on which entry i depends
Uses(f, i, n) == IF i <= n THEN {i} ELSE UNION {Uses(f, f.body[i - n].a[m], n) : m \in 1..Len(f.body[i - n].a)}
Close == /\ stmt.c = "outs" /\ Len(stmt.a) = stmt.n
         /\ LET used == UNION {Uses(Last, stmt.a[m], Len(Last.ps)) : m \in 1..Len(stmt.a)}
            IN IF Cardinality(used) = 0 \/ (Cardinality(used) < Len(Last.ps) /\ stmt.o = "-")
               THEN fun' = SubSeq(fun, 1, Len(fun) - 1) /\ UNCHANGED hist
               ELSE /\ fun' = [fun EXCEPT ![Len(fun)].outs = stmt.a, ![Len(fun)].done = TRUE]
                    /\ Log([c |-> "fun", f |-> Len(fun), ps |-> Last.ps, body |-> Last.body, es |-> Last.es, outs |-> stmt.a])
         /\ stmt' = Idle
         /\ UNCHANGED <<var, par, fac>>
NoResult == /\ \/ stmt.c = "outs" /\ Len(stmt.a) = 0 /\ ~\E i \in 1..Len(Last.es) : IsOp(Last, i)
               \/ Open /\ stmt.c = "-" /\ Len(Last.body) < Last.len /\ ~ENABLED Write
            /\ fun' = SubSeq(fun, 1, Len(fun) - 1)
            /\ stmt' = Idle
            /\ UNCHANGED <<var, par, fac, hist>>

OutKinds(f) == Force([m \in 1..Len(f.outs) |-> f.es[f.outs[m]]])
RECURSIVE Total(_, _)
Total(ks, i) == IF i = 0 THEN 0 ELSE Dim(ks[i]) + Total(ks, i - 1)
RECURSIVE Run(_, _, _, _)
Run(f, entries, i, np) ==
    IF i > Len(f.body) THEN entries
    ELSE LET b == f.body[i]
             r == CASE b.o = "lit" -> Constant("V", VecPool[b.n], np)
                    [] Len(b.a) = 1 -> Do1(b.o, b.n, entries[b.a[1]])
                    [] OTHER -> Do2(b.o, entries[b.a[1]], entries[b.a[2]])
         IN Run(f, Append(entries, r), i + 1, np)
Params(ps) == Force([i \in 1..Len(ps) |-> Target(ps[i].k, ps[i].v, i, Len(ps))])

(*--------------------------------- factors -------------------------------*)
\* a factor of a functor: variables are chosen one at a time
NewFac == /\ stmt.c = "newfac" /\ ~Open
          /\ \E f \in 1..Len(fun) : stmt' = [c |-> "fac", o |-> "-", ks |-> fun[f].ps, a |-> <<>>, n |-> f]
          /\ UNCHANGED <<fun, var, par, fac, hist>>
PickVar == /\ stmt.c = "fac" /\ Len(stmt.a) < Len(stmt.ks)
           /\ \E i \in 1..Len(var) : var[i].k = stmt.ks[Len(stmt.a) + 1] /\ stmt' = [stmt EXCEPT !.a = Append(@, i)]
           /\ UNCHANGED <<fun, var, par, fac, hist>>
Meas(ks, s) == Force([m \in 1..Len(ks) |-> Force([i \in 1..Dim(ks[m]) |-> ((s * (i + 2 * m) + i * i) % 11) - 4])])
NoiseOf(n, s, full) ==
    LET base == [Fresh(n) EXCEPT !.d = Force([i \in 1..n |-> <<1, 2, 4, 2, 1>>[1 + ((s + 2 * i) % 5)]])]
    IN IF ~full \/ n = 1 THEN base
       ELSE LET w == Shear(base, n, 1, 1 + (s % 2))
                x == Shear(w, 2, 1, IF s % 3 = 0 THEN -1 ELSE 1)
            IN IF n > 3 THEN Shear(x, n - 1, 2, -1) ELSE x
MakeFac == /\ stmt.c = "fac" /\ Len(stmt.a) = Len(stmt.ks)
           /\ \E s \in 0..6 : \E full \in BOOLEAN :
                LET f == fun[stmt.n]
                    ks == OutKinds(f)
                    w == NoiseOf(Total(ks, Len(ks)), s, full)
                    z == Meas(ks, s)
                IN /\ fac' = Append(fac, [f |-> stmt.n, vs |-> stmt.a, z |-> z, w |-> w, full |-> full])
                   /\ Log([c |-> "fac", f |-> stmt.n, vs |-> stmt.a, ks |-> ks, z |-> z, full |-> full, std |-> w.d, cov |-> Cov(w)])
           /\ stmt' = Idle
           /\ UNCHANGED <<fun, var, par>>
SetVar == /\ stmt.c = "set"
          /\ \E i \in 1..Len(var) : \E n \in 1..7 :
               LET v == PoolValue(var[i].k, n)
               IN var' = [var EXCEPT ![i].v = v] /\ Log([c |-> "set", i |-> i, k |-> var[i].k, v |-> v])
          /\ stmt' = Idle
          /\ UNCHANGED <<fun, par, fac>>
SetPar == /\ stmt.c = "setpar"
          /\ \E i \in 1..Len(par) : \E n \in 1..9 :
               LET v == PoolValue(par[i].k, n)
               IN par' = [par EXCEPT ![i].v = v] /\ Log([c |-> "setpar", i |-> i, k |-> par[i].k, v |-> v])
          /\ stmt' = Idle
          /\ UNCHANGED <<fun, var, fac>>
\* evaluation at objects (a > 0) or at the stored values of the variables (0)
NewEval == /\ stmt.c \in {"eval", "eval2"}
           /\ \E f \in 1..Len(fac) : \E own \in {"eval", "evals", "evalp"} :
                stmt' = IF own = "evals" THEN [c |-> "evalat", o |-> "stored", ks |-> <<>>, a |-> <<>>, n |-> f]
                        ELSE [c |-> "evalat", o |-> "given", ks |-> fun[fac[f].f].ps, a |-> <<>>, n |-> f]
           /\ UNCHANGED <<fun, var, par, fac, hist>>
PickPar == /\ stmt.c = "evalat" /\ Len(stmt.a) < Len(stmt.ks)
           /\ \E i \in 1..Len(par) : /\ par[i].k = stmt.ks[Len(stmt.a) + 1]
                                     /\ \A m \in 1..Len(stmt.a) : stmt.a[m] # i      \* different objects
                                     /\ stmt' = [stmt EXCEPT !.a = Append(@, i)]
           /\ UNCHANGED <<fun, var, par, fac, hist>>
RECURSIVE Joined(_, _)
Joined(vs, i) == IF i > Len(vs) THEN <<>> ELSE vs[i] \o Joined(vs, i + 1)
Zeros(r, c) == Force([i \in 1..r |-> Force([x \in 1..c |-> 0])])
RECURSIVE Stack(_, _, _, _)
Stack(es, t, c, i) == IF i > Len(es) THEN <<>>
                      ELSE (IF es[i].j[t] = <<>> THEN Zeros(Dim(es[i].k), c) ELSE es[i].j[t]) \o Stack(es, t, c, i + 1)
Distinct(vs) == \A i, j \in 1..Len(vs) : i < j => vs[i] # vs[j]
Evaluate == /\ stmt.c = "evalat" /\ Len(stmt.a) = Len(stmt.ks)
            /\ LET f == fac[stmt.n]
                   g == fun[f.f]
                   np == Len(g.ps)
                   at == IF stmt.o = "stored" THEN Force([i \in 1..np |-> var[f.vs[i]]])
                         ELSE Force([i \in 1..np |-> par[stmt.a[i]]])
                   es == Run(g, Params(at), 1, np)
                   rs == Force([m \in 1..Len(g.outs) |-> es[g.outs[m]]])
               IN IF (\E m \in 1..Len(rs) : rs[m].big \/ ~SmallVec(rs[m].v, 300)) \/ (stmt.o = "stored" /\ ~Distinct(f.vs))
                  THEN UNCHANGED hist
                  ELSE LET vs == Force([m \in 1..Len(rs) |-> rs[m].v])
                           d == VAdd(Joined(vs, 1), VMul(-1, Joined(f.z, 1)))
                       IN Log([c |-> "eval", a |-> stmt.a, fa |-> stmt.n, vs |-> f.vs, at |-> stmt.o, d |-> d, std |-> f.w.d,
                               full |-> f.full, w16 |-> Weighted16(f.w, d),
                               js |-> Force([t \in 1..np |-> Stack(rs, t, Dim(at[t].k), 1)])])
            /\ stmt' = Idle
            /\ UNCHANGED <<fun, var, par, fac>>

(*------------------------------- statements ------------------------------*)
Start == /\ stmt.c = "-" /\ ~Open /\ Len(hist) < Steps
         /\ stmt' \in {[Idle EXCEPT !.c = m] :
                         m \in IF Len(fun) < 2 THEN {"newfun"} ELSE IF Len(fac) < 2 THEN {"newfac"}
                               ELSE {"newfac", "set", "setpar", "eval", "eval2"} \cup (IF Len(fun) < 5 THEN {"newfun"} ELSE {})}
         /\ UNCHANGED <<fun, var, par, fac, hist>>
Stuck == /\ stmt.c # "-" /\ stmt.c # "end" /\ stmt.c # "outs"
         /\ ~ENABLED (NewFun \/ Operand \/ Append1 \/ NewFac \/ PickVar \/ MakeFac \/ SetVar \/ SetPar \/ NewEval \/ PickPar \/ Evaluate)
         /\ stmt' = Idle
         /\ UNCHANGED <<fun, var, par, fac, hist>>
Finish == /\ stmt.c = "-" /\ ~Open /\ Len(hist) >= Steps
          /\ stmt' = [Idle EXCEPT !.c = "end"]
          /\ UNCHANGED <<fun, var, par, fac, hist>>
Next == Start \/ NewFun \/ Write \/ Operand \/ Append1 \/ Result \/ Out \/ Close \/ NoResult \/ NewFac \/ PickVar \/ MakeFac
        \/ SetVar \/ SetPar \/ NewEval \/ PickPar \/ Evaluate \/ Stuck \/ Finish
AtEnd == stmt.c = "end"
\* evaluating changes nothing: the variables are as they were set last
Evals == {h \in {hist[n] : n \in 1..Len(hist)} : h.c = "eval"}
Shapes == AtEnd => \A h \in Evals : \A t \in 1..Len(h.js) : Len(h.js[t]) = Len(h.d) /\ Len(h.d) = Len(h.std)
Sound == AtEnd => \A f \in 1..Len(fac) : Inverses(fac[f].w)
Emit == AtEnd => PrintT("@" \o ToJson([vk |-> VarKinds, pk |-> ParKinds, hist |-> hist, var |-> var,
                                        par |-> par]))
=============================================================================
