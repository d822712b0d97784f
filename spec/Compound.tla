----------------------------- MODULE Compound -----------------------------
(***************************************************************************)
(* Compounds: tuples of vectors and scalars, as variables (objects which   *)
(* own their elements) and as expressions over other variables.  A state   *)
(* is a program: named expressions with values and derivatives with        *)
(* respect to the variables, and compound objects with their contents.     *)
(***************************************************************************)
EXTENDS CubeJac, Json

CONSTANTS Steps, MaxPool, MaxObjs

VARIABLES pool,   \* expressions [k, v, j, big, e]; the first NV are the variables
          obj,    \* compound objects [ks, vs]
          stmt,   \* the statement being formed: kind c, operation o, operands a, parameters
          hist
vars == <<pool, obj, stmt, hist>>

VarKinds == <<"V", "V", "S", "S", "X", "W", "R", "T">>
NV == Len(VarKinds)
Elem == {"V", "S", "X", "W"}

Idle == [c |-> "-", o |-> "-", ks |-> <<>>, a |-> <<>>, n |-> 0]
Init == /\ \E s \in {<<3, 1, 4, 1, 5, 9, 2, 6>>, <<0, 5, 2, 3, 8, 4, 7, 1>>, <<2, 3, 6, 0, 1, 2, 9, 11>>,
                     <<5, 2, 1, 5, 13, 1, 4, 8>>} :
              pool = Force([i \in 1..NV |-> Target(VarKinds[i], PoolValue(VarKinds[i], s[i]), i, NV)])
        /\ obj = <<>>
        /\ hist = <<>>
        /\ stmt = Idle

Log(h) == hist' = Append(hist, h)
Usable(i) == pool[i].k \in Elem /\ ~pool[i].big

(*------------------------- expressions of elements -----------------------*)
Ops1 == {<<"neg", k>> : k \in Elem} \cup {<<"kmul", k>> : k \in Elem} \cup
        {<<"sqn", "V">>, <<"inv", "R">>, <<"inv", "T">>, <<"rotof", "T">>, <<"transof", "T">>}
Ops2 == {<<o, k, k>> : o \in {"add", "sub"}, k \in Elem} \cup
        {<<"scale", "S", k>> : k \in Elem \ {"S"}} \cup
        {<<"prod", "S", "S">>, <<"dot", "V", "V">>, <<"rot", "R", "V">>, <<"trf", "T", "V">>, <<"comp", "R", "R">>}

Begin(c, o, ks, n) == stmt' = [c |-> c, o |-> o, ks |-> ks, a |-> <<>>, n |-> n]
\* one more operand; ks: the kinds required, "E" any element
Choose == /\ Len(stmt.a) < Len(stmt.ks)
          /\ LET k == stmt.ks[Len(stmt.a) + 1]
             IN \E i \in 1..Len(pool) :
                  /\ ~pool[i].big
                  /\ IF k = "E" THEN pool[i].k \in Elem ELSE pool[i].k = k
                  /\ stmt' = [stmt EXCEPT !.a = Append(@, i)]
          /\ UNCHANGED <<pool, obj, hist>>
Full == Len(stmt.a) = Len(stmt.ks)

Apply == /\ stmt.c = "op" /\ Full
         /\ LET r == IF Len(stmt.a) = 1 THEN Do1(stmt.o, stmt.n, pool[stmt.a[1]])
                     ELSE Do2(stmt.o, pool[stmt.a[1]], pool[stmt.a[2]])
            IN IF r.big THEN UNCHANGED <<pool, hist>>
               ELSE /\ pool' = Append(pool, r)
                    /\ Log([c |-> "op", o |-> stmt.o, a |-> stmt.a, n |-> stmt.n, k |-> r.k])
         /\ stmt' = Idle
         /\ UNCHANGED obj

\* a copy of an element of an object, no variable of which is a target
Take == /\ Len(pool) < MaxPool
        /\ \E o \in 1..Len(obj) : \E m \in 1..Len(obj[o].ks) :
             /\ pool' = Append(pool, Constant(obj[o].ks[m], obj[o].vs[m], NV))
             /\ Log([c |-> "take", o |-> o, m |-> m, k |-> obj[o].ks[m]])
        /\ UNCHANGED obj

(*------------------------------- compounds -------------------------------*)
Zeros(r, c) == Force([i \in 1..r |-> Force([x \in 1..c |-> 0])])
RECURSIVE Stack(_, _, _)       \* the derivatives of entries es[i..] with respect to variable t
Stack(es, t, i) == IF i > Len(es) THEN <<>>
                   ELSE (IF es[i].j[t] = <<>> THEN Zeros(Dim(es[i].k), Dim(VarKinds[t])) ELSE es[i].j[t])
                        \o Stack(es, t, i + 1)
Occurs(es, t) == \E i \in 1..Len(es) : es[i].j[t] # <<>>
Keep(ks, vs) ==    \* what is done with a result: nothing, a new object, or assigned to an object
    {<<"no", 0>>} \cup (IF Len(obj) < MaxObjs THEN {<<"new", Len(obj) + 1>>, <<"new", Len(obj) + 1>>} ELSE {})
        \cup {<<"assign", o>> : o \in {o \in 1..Len(obj) : obj[o].ks = ks}}
Put(kp, ks, vs) == obj' = CASE kp[1] = "no" -> obj
                            [] kp[1] = "new" -> Append(obj, [ks |-> ks, vs |-> vs])
                            [] OTHER -> [obj EXCEPT ![kp[2]].vs = vs]

Pack == /\ stmt.c = "pack" /\ Full
        /\ LET es == Force([i \in 1..Len(stmt.a) |-> pool[stmt.a[i]]])
               ks == Force([i \in 1..Len(es) |-> es[i].k])
               vs == Force([i \in 1..Len(es) |-> es[i].v])
           IN \E kp \in Keep(ks, vs) :
                 /\ Put(kp, ks, vs)
                 /\ Log([c |-> "pack", a |-> stmt.a, ks |-> ks, vs |-> vs, kp |-> kp,
                         js |-> Force([t \in 1..NV |-> IF Occurs(es, t) THEN Stack(es, t, 1) ELSE <<>>])])
        /\ stmt' = Idle
        /\ UNCHANGED pool

Sum(vs, ws, s) == Force([i \in 1..Len(vs) |-> VAdd(vs[i], VMul(s, ws[i]))])
SmallAll(vs) == \A i \in 1..Len(vs) : SmallVec(vs[i], 5000)
PlusMinus ==
    /\ \E o, p \in 1..Len(obj) : \E s \in {1, -1} :
         /\ obj[o].ks = obj[p].ks
         /\ LET vs == Sum(obj[o].vs, obj[p].vs, s)
            IN /\ SmallAll(vs)
               /\ \E kp \in Keep(obj[o].ks, vs) :
                    /\ Put(kp, obj[o].ks, vs)
                    /\ Log([c |-> "pm", a |-> <<o, p>>, s |-> s, ks |-> obj[o].ks, vs |-> vs, kp |-> kp])
    /\ UNCHANGED pool

\* an object plus or minus an expression, or the other way around
PlusPack == /\ stmt.c = "pp" /\ Full
            /\ LET o == stmt.n
                   ws == Force([i \in 1..Len(stmt.a) |-> pool[stmt.a[i]].v])
               IN \E s \in {1, -1} : \E first \in BOOLEAN :
                    LET vs == IF first THEN Sum(ws, obj[o].vs, s) ELSE Sum(obj[o].vs, ws, s)
                    IN /\ SmallAll(vs)
                       /\ \E kp \in Keep(obj[o].ks, vs) :
                            /\ Put(kp, obj[o].ks, vs)
                            /\ Log([c |-> "pp", a |-> stmt.a, o |-> o, s |-> s, first |-> first,
                                    ks |-> obj[o].ks, vs |-> vs, kp |-> kp])
            /\ stmt' = Idle
            /\ UNCHANGED pool

(*------------------------------ statements -------------------------------*)
SetElem == /\ \E o \in 1..Len(obj) : \E m \in 1..Len(obj[o].ks) : \E i \in 1..Len(pool) :
                /\ Usable(i) /\ pool[i].k = obj[o].ks[m]
                /\ obj' = [obj EXCEPT ![o].vs[m] = pool[i].v]
                /\ Log([c |-> "set", o |-> o, m |-> m, i |-> i])
           /\ UNCHANGED pool
Copy == /\ \E o, p \in 1..Len(obj) : \E how \in {"copy", "move", "build"} :
             /\ o # p /\ obj[o].ks = obj[p].ks
             /\ obj' = [obj EXCEPT ![o].vs = obj[p].vs]
             /\ Log([c |-> "copy", o |-> o, p |-> p, how |-> how])
        /\ UNCHANGED pool
\* elements of an object are exchanged through an expression of its own elements
Swap == /\ \E o \in 1..Len(obj) : \E m, n \in 1..Len(obj[o].ks) :
             /\ m < n /\ obj[o].ks[m] = obj[o].ks[n]
             /\ LET ws == [obj[o].vs EXCEPT ![m] = obj[o].vs[n], ![n] = obj[o].vs[m]]
                IN obj' = [obj EXCEPT ![o].vs = ws]
             /\ Log([c |-> "swap", o |-> o, m |-> m, n |-> n, len |-> Len(obj[o].ks)])
        /\ UNCHANGED pool
\* objects are equal if all elements are; otherwise the differences are at least one part in 10^4
Compare == /\ \E o, p \in 1..Len(obj) :
                /\ obj[o].ks = obj[p].ks
                /\ Log([c |-> "cmp", o |-> o, p |-> p, r |-> obj[o].vs = obj[p].vs])
           /\ UNCHANGED <<pool, obj>>

Small == Len(pool) < MaxPool
Start == /\ stmt.c = "-"
         /\ Len(hist) < Steps
         /\ stmt' \in {[Idle EXCEPT !.c = m] :
                         m \in IF Len(pool) < NV + 3 THEN {"newop"} ELSE
                               {"newop", "newop2", "newpack", "newpack2", "newpp", "take", "pm", "set", "copy", "swap", "cmp"}}
         /\ UNCHANGED <<pool, obj, hist>>
Form == /\ \/ /\ stmt.c \in {"newop", "newop2"} /\ Small
              /\ \/ \E u \in Ops1 : \E c \in (IF u[1] = "kmul" THEN 1..3 ELSE {0}) : Begin("op", u[1], <<u[2]>>, c)
                 \/ \E u \in Ops2 : Begin("op", u[1], <<u[2], u[3]>>, 0)
           \/ /\ stmt.c \in {"newpack", "newpack2"}
              /\ \E n \in 2..4 : Begin("pack", "-", SubSeq(<<"E", "E", "E", "E">>, 1, n), n)
           \/ /\ stmt.c = "newpack2"       \* like an existing object
              /\ \E o \in 1..Len(obj) : Begin("pack", "-", obj[o].ks, 0)
           \/ /\ stmt.c = "newpp"
              /\ \E o \in 1..Len(obj) : Begin("pp", "-", obj[o].ks, o)
        /\ UNCHANGED <<pool, obj, hist>>
Simple == /\ \/ stmt.c = "take" /\ Take
             \/ stmt.c = "pm" /\ PlusMinus
             \/ stmt.c = "set" /\ SetElem
             \/ stmt.c = "copy" /\ Copy
             \/ stmt.c = "swap" /\ Swap
             \/ stmt.c = "cmp" /\ Compare
          /\ stmt' = Idle
GiveUp == /\ stmt.c \notin {"-", "end", "op", "pack", "pp"}
          /\ ~ENABLED (Form \/ Simple)
          /\ stmt' = Idle
          /\ UNCHANGED <<pool, obj, hist>>
Drop == /\ stmt.c \in {"op", "pack", "pp"} /\ ~ENABLED (Choose \/ Apply \/ Pack \/ PlusPack)
        /\ stmt' = Idle
        /\ UNCHANGED <<pool, obj, hist>>
Finish == /\ stmt.c = "-"
          /\ Len(hist) >= Steps
          /\ stmt' = [Idle EXCEPT !.c = "end"]
          /\ UNCHANGED <<pool, obj, hist>>
Next == Start \/ Form \/ Choose \/ Apply \/ Pack \/ PlusPack \/ Simple \/ GiveUp \/ Drop \/ Finish

TypeOK == /\ \A i \in 1..Len(pool) : pool[i].k \in {"S"} \cup {"V", "W", "X", "R", "T"}
          /\ \A o \in 1..Len(obj) : /\ Len(obj[o].ks) = Len(obj[o].vs)
                                    /\ \A m \in 1..Len(obj[o].ks) : Len(obj[o].vs[m]) = Dim(obj[o].ks[m])
\* the rows of a compound's derivative are as many as its elements' together
RECURSIVE Total(_, _)
Total(ks, i) == IF i = 0 THEN 0 ELSE Dim(ks[i]) + Total(ks, i - 1)
Rows == \A h \in 1..Len(hist) : hist[h].c = "pack" =>
          \A t \in 1..NV : hist[h].js[t] = <<>> \/
             /\ Len(hist[h].js[t]) = Total(hist[h].ks, Len(hist[h].ks))
             /\ \A r \in 1..Len(hist[h].js[t]) : Len(hist[h].js[t][r]) = Dim(VarKinds[t])
Emit == stmt.c = "end" => PrintT("@" \o ToJson([vals |-> [i \in 1..NV |-> [k |-> VarKinds[i],
                                  v |-> pool[i].v]], hist |-> hist, obj |-> obj]))
=============================================================================
