----------------------------- MODULE Identity -----------------------------
(***************************************************************************)
(* Which stored objects an expression consists of.  An expression is a     *)
(* tree; a node is held by reference (r) or by value.  Leaves are named    *)
(* variables (several with equal values, or viewing the same memory),      *)
(* plain numbers, and values owned by the expression, each with an id.     *)
(* Two expressions are the same if they are the same tree over the same    *)
(* ids; derivatives are with respect to ids.                               *)
(***************************************************************************)
EXTENDS CubeJac, Json

CONSTANTS Steps, MaxPool, MaxNodes

VARIABLES cell,    \* values of the memory the variables refer to
          pool,    \* nodes; the first NV are the variables
          made,    \* how each was made (the statement), for making another like it
          fresh,   \* number of identities given out
          stmt,
          hist
vars == <<cell, pool, made, fresh, stmt, hist>>

\* variables 2n-1 and 2n have the same type; "D" is a plain number
VarKinds == <<"V", "V", "V", "V", "R", "R", "R", "R", "T", "T", "S", "S", "D", "D", "P", "P", "W", "W">>
NV == Len(VarKinds)
Twin(i) == IF i % 2 = 1 THEN i + 1 ELSE i - 1
Views == {4, 8}                      \* view the memory of the variable before
CellOf(i) == IF i \in Views THEN i - 1 ELSE i
Kind(k) == IF k = "D" THEN "S" ELSE k

Node(o, id, n, k, v, a, r) == [o |-> o, id |-> id, n |-> n, k |-> k, v |-> v, a |-> a, r |-> r]
VarNode(i) == Node("var", <<i>>, 0, VarKinds[i], <<>>, <<>>, TRUE)
IsLeaf(t) == t.o \in {"var", "own", "lit"}

Idle == [c |-> "-", o |-> "-", ks |-> <<>>, a |-> <<>>, n |-> 0]
Init == /\ \E s \in {<<3, 1, 4, 1, 5, 9>>, <<0, 5, 2, 3, 8, 4>>, <<2, 3, 6, 0, 1, 2>>, <<5, 2, 1, 4, 10, 1>>} :
              \* twins start with equal values
              cell = Force([i \in 1..NV |-> PoolValue(Kind(VarKinds[i]), s[1 + (((i + 1) \div 2) % 6)])])
        /\ pool = Force([i \in 1..NV |-> VarNode(i)])
        /\ made = Force([i \in 1..NV |-> Idle])
        /\ fresh = NV
        /\ hist = <<[c |-> "init", vals |-> Force([i \in 1..NV |-> [k |-> VarKinds[i], v |-> cell[CellOf(i)]]])]>>
        /\ stmt = Idle
Log(h) == hist' = Append(hist, h)

(*---------------------------------- trees --------------------------------*)
RECURSIVE Size(_)
Size(t) == IF Len(t.a) = 0 THEN 1 ELSE IF Len(t.a) = 1 THEN 1 + Size(t.a[1]) ELSE 1 + Size(t.a[1]) + Size(t.a[2])
RECURSIVE Same(_, _)
Same(t, u) == /\ t.o = u.o /\ t.k = u.k
              /\ IF IsLeaf(t) \/ t.o = "px" THEN t.id = u.id
                 ELSE \A i \in 1..Len(t.a) : t.a[i].r = u.a[i].r /\ Same(t.a[i], u.a[i])
\* a copy: what is owned gets a new identity (copy number m), what is referred to does not
RECURSIVE Copied(_, _)
Copied(t, m) == IF t.r \/ t.o = "px" THEN t
                ELSE IF IsLeaf(t) THEN [t EXCEPT !.id = Append(@, m)]
                ELSE [t EXCEPT !.a = Force([i \in 1..Len(t.a) |-> Copied(t.a[i], m)])]

\* value and derivatives with respect to the variables and the owned leaf id
RECURSIVE Eval(_, _)
Eval(t, id) ==
    LET n == NV + 1
        At(k, v) == [Constant(k, v, n) EXCEPT !.j = Force([i \in 1..n |-> IF (i <= NV /\ t.id = <<i>> /\ t.o = "var")
                                                        \/ (i = n /\ t.id = id /\ t.o = "own") THEN MId(Dim(k)) ELSE <<>>])]
    IN CASE t.o = "var" -> At(Kind(t.k), cell[CellOf(t.id[1])])
         [] t.o = "own" -> At(t.k, t.v)
         [] t.o = "lit" -> At("S", t.v)
         [] t.o = "px" -> Eval(t.a[1], id)
         [] t.o \in {"kmul", "dmul"} -> Do2("scale", Eval(t.a[1], id), Eval(t.a[2], id))
         [] t.o \in {"mulk", "muld"} -> Do2("scale", Eval(t.a[2], id), Eval(t.a[1], id))
         [] t.o \in {"dprod", "prodd"} -> Do2("prod", Eval(t.a[1], id), Eval(t.a[2], id))
         [] t.o \in {"dadd", "addd"} -> Do2("add", Eval(t.a[1], id), Eval(t.a[2], id))
         [] t.o \in {"dsub", "subd"} -> Do2("sub", Eval(t.a[1], id), Eval(t.a[2], id))
         [] Len(t.a) = 1 -> Do1(t.o, t.n, Eval(t.a[1], id))
         [] OTHER -> Do2(t.o, Eval(t.a[1], id), Eval(t.a[2], id))
RECURSIVE Occurs(_, _)
Occurs(t, i) == IF t.o = "var" THEN t.id = <<i>> ELSE \E m \in 1..Len(t.a) : Occurs(t.a[m], i)

\* places in a tree which can be named: sequences of operand numbers
RECURSIVE Sub(_, _)
Sub(t, p) == IF p = <<>> THEN t ELSE Sub(t.a[Head(p)], Tail(p))
RECURSIVE Paths(_)
Paths(t) == {<<>>} \cup (IF IsLeaf(t) \/ t.o = "px" THEN {}
                         ELSE UNION {{<<i>> \o p : p \in Paths(t.a[i])} :
                                     i \in {i \in 1..Len(t.a) : t.a[i].o # "lit" /\ t.a[i].k # "D"}})
\* the operands are not the C++ operands
Opaque == {"rotof", "transof"}
Clear(t, p) == \A n \in 0..Len(p) - 1 : Sub(t, SubSeq(p, 1, n)).o \notin Opaque

(*------------------------------- expressions -----------------------------*)
Vec == {"V", "W"}
Ops1 == {<<"neg", k>> : k \in Vec \cup {"S"}} \cup
        {<<"inv", "R">>, <<"inv", "T">>, <<"rotof", "T">>, <<"transof", "T">>, <<"sqn", "V">>} \cup
        {<<o, k>> : o \in {"kmul", "mulk"}, k \in Vec}
Ops2 == {<<o, k, k>> : o \in {"add", "sub"}, k \in {"V", "W", "S"}} \cup
        {<<"comp", "R", "R">>, <<"comp", "T", "T">>, <<"rot", "R", "V">>, <<"trf", "T", "V">>, <<"dot", "V", "V">>,
         <<"prod", "S", "S">>, <<"scale", "S", "V">>, <<"scale", "S", "W">>, <<"add", "P", "V">>, <<"sub", "P", "P">>,
         <<"sub", "P", "V">>, <<"dmul", "D", "V">>, <<"muld", "V", "D">>, <<"dmul", "D", "W">>,
         <<"dadd", "D", "S">>, <<"addd", "S", "D">>, <<"dsub", "D", "S">>, <<"subd", "S", "D">>,
         <<"dprod", "D", "S">>, <<"prodd", "S", "D">>}
Result(o, ks) == CASE o \in {"sqn", "dot", "dadd", "addd", "dsub", "subd", "dprod", "prodd"} -> "S"
                   [] o = "rotof" -> "R" [] o \in {"transof", "rot", "trf"} -> "V"
                   [] o = "add" -> IF ks[2] = "P" THEN "P" ELSE ks[1]
                   [] o = "sub" -> IF ks = <<"P", "P">> THEN "V" ELSE ks[1]
                   [] o \in {"scale", "dmul"} -> ks[2]
                   [] OTHER -> ks[1]

\* operand x = [i: entry, how: named or a copy of it] when the m-th identity is the next
Operand(x, m) ==
    LET t == pool[x.i]
    IN IF t.o = "px" THEN t
       ELSE IF x.how = "name" THEN [t EXCEPT !.r = TRUE]
       ELSE IF t.o = "var" THEN Node("own", <<m>>, 0, t.k, cell[CellOf(t.id[1])], <<>>, FALSE)
       ELSE Copied([t EXCEPT !.r = FALSE], m)
Made(s, m) ==     \* the tree statement s makes; identities m + 1 and m + 2 are for its operands, m + 3 for a number
    LET xs == Force([i \in 1..Len(s.a) |-> Operand(s.a[i], m + i)])
        lit == Node("lit", <<m + 3>>, 0, "S", <<Consts[IF s.n = 0 THEN 1 ELSE s.n]>>, <<>>, FALSE)
        as == CASE s.o = "kmul" -> <<lit, xs[1]>>
                [] s.o = "mulk" -> <<xs[1], lit>>
                [] OTHER -> xs
    IN Node(s.o, <<>>, s.n, Result(s.o, s.ks), <<>>, as, FALSE)
Begin(c, o, ks, n) == stmt' = [c |-> c, o |-> o, ks |-> ks, a |-> <<>>, n |-> n]
Choose == /\ stmt.c = "op" /\ Len(stmt.a) < Len(stmt.ks)
          /\ LET k == stmt.ks[Len(stmt.a) + 1]
             IN \E i \in 1..Len(pool) :
                  /\ pool[i].k = k
                  /\ \E how \in (IF k = "D" \/ pool[i].o = "px" \/ Size(pool[i]) > 6 THEN {"name"}
                                 ELSE {"name", "copy"}) :
                       stmt' = [stmt EXCEPT !.a = Append(@, [i |-> i, how |-> how])]
          /\ UNCHANGED <<cell, pool, made, fresh, hist>>
Add(s, c) ==   \* a new expression made by statement s
    LET t == Made(s, fresh)
    IN IF Size(t) > MaxNodes \/ Eval(t, <<>>).big THEN UNCHANGED <<pool, made, fresh, hist>>
       ELSE /\ pool' = Append(pool, t)
            /\ made' = Append(made, s)
            /\ fresh' = fresh + 3
            /\ Log([c |-> "op", o |-> s.o, a |-> s.a, n |-> s.n, k |-> t.k, what |-> c])
Apply == /\ stmt.c = "op" /\ Len(stmt.a) = Len(stmt.ks)
         /\ Add(stmt, "new")
         /\ stmt' = Idle
         /\ UNCHANGED cell
\* the same statement again; or with a variable replaced by its twin
Again == /\ \E i \in NV + 1..Len(pool) : (made[i].c = "op" /\ Add(made[i], "again"))
         /\ UNCHANGED cell
AgainTwin == /\ \E i \in NV + 1..Len(pool) :
                  /\ made[i].c = "op"
                  /\ \E m \in 1..Len(made[i].a) :
                       /\ made[i].a[m].i <= NV
                       /\ Add([made[i] EXCEPT !.a[m].i = Twin(@)], "twin")
             /\ UNCHANGED cell
Copy == /\ \E i \in NV + 1..Len(pool) :
             /\ pool' = Append(pool, Copied(pool[i], fresh + 1))
             /\ fresh' = fresh + 1
             /\ made' = Append(made, Idle)
             /\ Log([c |-> "copy", i |-> i, k |-> pool[i].k, px |-> pool[i].o = "px"])
        /\ UNCHANGED cell
\* a proxy holds its own copy of an expression
Proxy == /\ \E i \in NV + 1..Len(pool) :
              /\ pool[i].o # "px" /\ pool[i].k \in {"V", "R", "S", "W"}
              /\ pool' = Append(pool, Node("px", <<fresh + 1>>, 0, pool[i].k, <<>>, <<Copied(pool[i], fresh + 2)>>, FALSE))
              /\ fresh' = fresh + 2
              /\ made' = Append(made, Idle)
              /\ Log([c |-> "proxy", i |-> i, k |-> pool[i].k])
         /\ UNCHANGED cell
Set == /\ \E i \in 1..NV : \E n \in 0..6 :
            LET v == PoolValue(Kind(VarKinds[i]), n)
            IN /\ cell' = [cell EXCEPT ![CellOf(i)] = v]
               /\ Log([c |-> "set", i |-> i, v |-> v])
       /\ UNCHANGED <<pool, made, fresh>>

(*------------------------------ observations -----------------------------*)
Place == /\ stmt.c = "same" /\ Len(stmt.a) = 0
         /\ \E i \in 1..Len(pool) : \E p \in Paths(pool[i]) :
              /\ Clear(pool[i], p)
              /\ Sub(pool[i], p).o # "own" \/ stmt.n = 2
              /\ stmt.n = 1 => (i > NV /\ p = <<>>)
              /\ stmt' = [stmt EXCEPT !.a = <<[i |-> i, p |-> p]>>]
         /\ UNCHANGED <<cell, pool, made, fresh, hist>>
Like(t, u) == t.o = u.o /\ t.k = u.k
Compare == /\ stmt.c = "same" /\ Len(stmt.a) = 1
           /\ LET x == stmt.a[1]
                  t == Sub(pool[x.i], x.p)
              IN \E j \in 1..Len(pool) : \E q \in Paths(pool[j]) :
                   /\ Clear(pool[j], q)
                   /\ Like(t, Sub(pool[j], q))
                   /\ (j # x.i \/ q # x.p)
                   /\ Log([c |-> "same", i |-> x.i, p |-> x.p, j |-> j, q |-> q, r |-> Same(t, Sub(pool[j], q)), o |-> t.o])
           /\ stmt' = Idle
           /\ UNCHANGED <<cell, pool, made, fresh>>
Diff == /\ \E i \in NV + 1..Len(pool) :
             LET t == pool[i]
                 owned == {p \in Paths(t) : Sub(t, p).o = "own" /\ Clear(t, p)}
             IN \E p \in (IF owned = {} THEN {<<>>} ELSE owned) :
                  LET e == Eval(t, IF owned = {} THEN <<>> ELSE Sub(t, p).id)
                  IN /\ ~e.big
                     /\ Log([c |-> "diff", i |-> i, k |-> e.k, v |-> e.v, p |-> p, js |-> e.j,
                             occ |-> Force([m \in 1..NV |-> Occurs(t, m)])])
        /\ UNCHANGED <<cell, pool, made, fresh>>

Room == Len(pool) < MaxPool
Start == /\ stmt.c = "-" /\ Len(hist) < Steps
         /\ stmt' \in {[Idle EXCEPT !.c = m] : m \in IF Len(pool) < NV + 3 THEN {"new1", "new2"}
                           ELSE {"new1", "new2", "again", "twin", "copy", "proxy", "set", "diff", "diff2", "diff3"}
                                \cup {"same1", "same2", "same3"}}
         /\ UNCHANGED <<cell, pool, made, fresh, hist>>
Form == /\ \/ /\ stmt.c \in {"new1", "new2"} /\ Room
              /\ \/ stmt.c = "new1" /\ \E u \in Ops1 : \E c \in (IF u[1] \in {"kmul", "mulk"} THEN 1..3 ELSE {0}) :
                                          Begin("op", u[1], <<u[2]>>, c)
                 \/ \E u \in Ops2 : Begin("op", u[1], <<u[2], u[3]>>, 0)
           \/ \E m \in 1..3 : stmt.c = <<"same1", "same2", "same3">>[m] /\ Begin("same", "-", <<>>, m)
        /\ UNCHANGED <<cell, pool, made, fresh, hist>>
Simple == /\ \/ stmt.c = "again" /\ Room /\ Again
             \/ stmt.c = "twin" /\ Room /\ AgainTwin
             \/ stmt.c = "copy" /\ Room /\ Copy
             \/ stmt.c = "proxy" /\ Room /\ Proxy
             \/ stmt.c = "set" /\ Set
             \/ stmt.c \in {"diff", "diff2", "diff3"} /\ Diff
          /\ stmt' = Idle
GiveUp == /\ stmt.c \notin {"-", "end"}
          /\ ~ENABLED (Form \/ Simple \/ Choose \/ Apply \/ Place \/ Compare)
          /\ stmt' = Idle
          /\ UNCHANGED <<cell, pool, made, fresh, hist>>
Finish == /\ stmt.c = "-" /\ Len(hist) >= Steps
          /\ stmt' = [Idle EXCEPT !.c = "end"]
          /\ UNCHANGED <<cell, pool, made, fresh, hist>>
Next == Start \/ Form \/ Choose \/ Apply \/ Place \/ Compare \/ Simple \/ GiveUp \/ Finish

(*---------------------------------- laws ---------------------------------*)
Ends == stmt.c = "end"
\* sameness is an equivalence
Equivalence == Ends => \A i, j \in 1..Len(pool) :
                  /\ Same(pool[i], pool[i])
                  /\ Same(pool[i], pool[j]) = Same(pool[j], pool[i])
                  /\ \A m \in 1..Len(pool) : Same(pool[i], pool[j]) /\ Same(pool[j], pool[m]) => Same(pool[i], pool[m])
\* the same expressions have the same value and derivatives
Congruent == Ends => \A i, j \in NV + 1..Len(pool) :
                i < j /\ Same(pool[i], pool[j]) => Eval(pool[i], <<>>) = Eval(pool[j], <<>>)
\* what does not occur has derivative zero
Absent == Ends => \A i \in NV + 1..Len(pool) :
            LET e == Eval(pool[i], <<>>) IN \A m \in 1..NV : ~e.big /\ ~Occurs(pool[i], m) => e.j[m] = <<>>
\* identities of owned leaves are not shared within an expression or between expressions held by value
RECURSIVE Owned(_)
Owned(t) == IF t.r \/ t.o \in {"px", "var"} THEN {} ELSE IF IsLeaf(t) THEN {t.id}
            ELSE UNION {Owned(t.a[m]) : m \in 1..Len(t.a)}
Distinct == Ends => \A i, j \in NV + 1..Len(pool) : i # j => Owned(pool[i]) \cap Owned(pool[j]) = {}

Emit == Ends => PrintT("@" \o ToJson([hist |-> hist]))
=============================================================================
