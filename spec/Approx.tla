------------------------------- MODULE Approx -------------------------------
(***************************************************************************)
(* Approximate comparison.  Every variable exists in two versions, its     *)
(* value moved a little in two directions: an entry of the pool is a value *)
(* v and the two displacements j[1], j[2], in units of some small number   *)
(* (to first order; the Jacobians of CubeJac.tla propagate them).  A       *)
(* comparison has a precision in half units (kind "u"), which an odd       *)
(* number of cannot equal a displacement, or a fraction (kind "r"), or the *)
(* default one, which is far less than a unit (kind "d").                  *)
(* Comparisons too close to call have the verdict "?" and are not made.    *)
(***************************************************************************)
EXTENDS CubeJac, Json

CONSTANTS Steps, MaxPool
VARIABLES pool, stmt, hist
vars == <<pool, stmt, hist>>

VarKinds == <<"R", "R", "T", "T", "V", "V", "P", "W", "X", "S", "S">>
NV == Len(VarKinds)
Elem == {"V", "S", "X", "W"}
Idle == [c |-> "-", o |-> "-", ks |-> <<>>, a |-> <<>>, n |-> 0]

(*------------------------------- the verdict -----------------------------*)
Abs(x) == IF x < 0 THEN -x ELSE x
RECURSIVE MaxAbs(_, _)
MaxAbs(v, i) == IF i = 0 THEN 0 ELSE LET m == MaxAbs(v, i - 1) IN IF Abs(v[i]) > m THEN Abs(v[i]) ELSE m
Biggest(v) == MaxAbs(v, Len(v))
N2(v) == SumSq(v, Len(v))
Min(a, b) == IF a < b THEN a ELSE b
Yes(b) == IF b THEN "t" ELSE "f"
\* a <= b, when clear
Clear(a, b) == IF a = 0 /\ b = 0 THEN "t"
               ELSE IF Abs(a - b) <= (IF a > b THEN a ELSE b) \div 1000 THEN "?" ELSE Yes(a < b)

Side(e, s) == [r \in 1..Dim(e.k) |-> IF e.j[s] = <<>> THEN 0 ELSE e.j[s][r][1]]
Moved(e, s, f, t) == LET a == Side(e, s) b == Side(f, t) IN [r \in 1..Dim(e.k) |-> a[r] - b[r]]
VSub(a, b) == VAdd(a, VMul(-1, b))

\* the greatest component of the logarithm of a rotation of the cube, in thousandths
LogMax(Q) == LET tr == Q[1][1] + Q[2][2] + Q[3][3]
             IN CASE tr = 3 -> 0
                  [] tr = 1 -> 1571
                  [] tr = 0 -> 1209
                  [] OTHER -> IF 1 \in {Q[1][1], Q[2][2], Q[3][3]} THEN 3142 ELSE 2221

\* rotations and transforms: the components of the manifold difference
Rot(e) == IF e.k = "R" THEN e.v ELSE e.v.R
Group(e, s, f, t, p) ==
    IF e.v = f.v THEN (IF p.c = "r" THEN "t"
                       ELSE IF p.c = "u" THEN Yes(2 * Biggest(Moved(e, s, f, t)) < p.q)
                       ELSE IF Biggest(Moved(e, s, f, t)) > 0 THEN "f" ELSE "?")
    ELSE IF p.c # "r" THEN "f"
    ELSE LET w == LogMax(MM(Rot(e), MT(Rot(f))))
         IN IF 1000 * p.q < w * p.d THEN "f"
            ELSE IF e.k = "R" THEN "t"
            ELSE IF w = 0 THEN Clear(p.d * Biggest(VSub(e.v.t, f.v.t)), p.q)
            ELSE "?"

\* elements of vector spaces: the norm of the difference relative to the smaller norm
Norms(e, s, f, t, p) ==
    LET d2 == N2(Moved(e, s, f, t)) zero == N2(e.v) = 0
    IN IF e.v = f.v THEN
           CASE zero /\ d2 = 0 -> "?"
             [] zero /\ p.c = "r" -> Clear(p.d * p.d * d2, p.q * p.q * Min(N2(Side(e, s)), N2(Side(f, t))))
             [] zero -> "f"
             [] ~zero /\ p.c = "r" -> "t"
             [] ~zero /\ p.c = "u" -> Clear(4 * d2, p.q * p.q * N2(e.v))
             [] ~zero /\ p.c = "d" -> IF d2 > 0 THEN "f" ELSE "?"
       ELSE IF p.c # "r" THEN "f"
       ELSE Clear(p.d * p.d * N2(VSub(e.v, f.v)), p.q * p.q * Min(N2(e.v), N2(f.v)))

Close(e, s, f, t, p) == IF e.k \in {"R", "T"} THEN Group(e, s, f, t, p) ELSE Norms(e, s, f, t, p)
Same(e, s, f, t) == e = f /\ s = t                \* the very same computation
Verdict(i, s, j, t, p) == IF i = j /\ s = t THEN "t" ELSE Close(pool[i], s, pool[j], t, p)
\* all elements of a compound
All(vs) == IF \E i \in 1..Len(vs) : vs[i] = "f" THEN "f" ELSE IF \E i \in 1..Len(vs) : vs[i] = "?" THEN "?" ELSE "t"

Nought(e, s, p) ==
    LET v == Biggest(e.v) d == Biggest(Side(e, s))
    IN IF v = 0 THEN CASE p.c = "r" -> "t"
                       [] p.c = "u" -> Yes(2 * d < p.q)
                       [] p.c = "d" -> IF d > 0 THEN "f" ELSE "?"
       ELSE IF p.c # "r" THEN "f" ELSE Clear(p.d * v, p.q)

Precisions == {[c |-> "u", q |-> q, d |-> 2] : q \in {1, 3, 5, 7, 11, 19, 31, 51}} \cup
              {[c |-> "r", q |-> x[1], d |-> x[2]] : x \in {<<1, 10>>, <<1, 3>>, <<9, 10>>, <<7, 5>>, <<19, 10>>,
                                                            <<27, 10>>, <<7, 2>>, <<11, 2>>}}
Default == [c |-> "d", q |-> 0, d |-> 1]

(*------------------------------ the program ------------------------------*)
Dir(k, n) == [r \in 1..Dim(k) |-> <<((n * (r + 2) + 3 * r * r + n * n * r) % 7) - 3>>]
Near(d, n) == [d EXCEPT ![1 + (n % Len(d))] = <<d[1 + (n % Len(d))][1] + (n % 5) - 2>>]
Variable(k, v, n) == LET d == Force(Dir(k, n)) d2 == Force(Near(d, n \div 3))
                     IN [k |-> k, v |-> v, big |-> FALSE, j |-> <<d, d2>>]
Zero(k) == Force([i \in 1..Dim(k) |-> 0])
Start0(k, n) == IF k \notin {"R", "T"} /\ n % 4 = 0 THEN Zero(k) ELSE PoolValue(k, n)
Init == /\ \E s \in {<<3, 1, 4, 1, 5, 9, 2, 6, 5, 4, 6>>, <<9, 3, 2, 3, 8, 4, 6, 2, 6, 4, 3>>,
                     <<2, 7, 1, 8, 2, 3, 1, 8, 2, 9, 4>>, <<5, 2, 1, 5, 13, 1, 4, 8, 7, 2, 5>>} :
           \E m \in 0..4 :
             pool = Force([i \in 1..NV |-> Variable(VarKinds[i], Start0(VarKinds[i], s[i]), s[i] + 5 * m + i)])
        /\ hist = <<>>
        /\ stmt = Idle

Ops1 == {<<"neg", k>> : k \in Elem} \cup {<<"kmul", k>> : k \in Elem} \cup
        {<<"sqn", "V">>, <<"inv", "R">>, <<"inv", "T">>, <<"rotof", "T">>, <<"transof", "T">>}
Ops2 == {<<o, k, k>> : o \in {"add", "sub"}, k \in Elem} \cup
        {<<"scale", "S", k>> : k \in {"V", "W", "X"}} \cup
        {<<"prod", "S", "S">>, <<"dot", "V", "V">>, <<"rot", "R", "V">>, <<"trf", "T", "V">>, <<"comp", "R", "R">>,
         <<"comp", "T", "T">>, <<"add", "P", "V">>, <<"sub", "P", "P">>}

Slight(e) == ~e.big /\ (e.k \in {"R", "T"} \/ Biggest(e.v) <= 60) /\ \A s \in 1..2 : Biggest(Side(e, s)) <= 40

Start == /\ stmt.c = "-" /\ Len(hist) < Steps
         /\ stmt' \in {[Idle EXCEPT !.c = m] : m \in IF Len(pool) < NV + 5 THEN {"newop"}
                                                    ELSE {"newop", "newcmp", "newcmp2", "newtwin", "newtwin2", "newzero", "newpack"}}
         /\ UNCHANGED <<pool, hist>>
Begin(c, o, ks, n) == stmt' = [c |-> c, o |-> o, ks |-> ks, a |-> <<>>, n |-> n]
Form == /\ \/ /\ stmt.c = "newop" /\ Len(pool) < MaxPool
              /\ \/ \E u \in Ops1 : \E c \in (IF u[1] = "kmul" THEN 1..3 ELSE {0}) : Begin("op", u[1], <<u[2]>>, c)
                 \/ \E u \in Ops2 : Begin("op", u[1], <<u[2], u[3]>>, 0)
           \/ /\ stmt.c \in {"newcmp", "newcmp2"}
              /\ \E k \in Elem \cup {"R", "T", "P"} : Begin("cmp", "-", <<k, k>>, 0)
           \/ /\ stmt.c \in {"newtwin", "newtwin2"}
              /\ \E k \in Elem \cup {"R", "T", "P"} : Begin("twin", "-", <<k>>, 0)
           \/ /\ stmt.c = "newzero"
              /\ \E k \in Elem \cup {"P"} : Begin("zero", "-", <<k>>, 0)
           \/ /\ stmt.c = "newpack"
              /\ \E k, l, m \in Elem : \E n \in 2..3 : Begin("pack", "-", SubSeq(<<k, l, m>>, 1, n), n)
        /\ UNCHANGED <<pool, hist>>
Full == Len(stmt.a) = Len(stmt.ks)
Choose == /\ Len(stmt.a) < Len(stmt.ks)
          /\ \E i \in 1..Len(pool) :
               /\ pool[i].k = stmt.ks[Len(stmt.a) + 1]
               /\ stmt' = [stmt EXCEPT !.a = Append(@, i)]
          /\ UNCHANGED <<pool, hist>>
Apply == /\ stmt.c = "op" /\ Full
         /\ LET r == IF Len(stmt.a) = 1 THEN Do1(stmt.o, stmt.n, pool[stmt.a[1]])
                          ELSE Do2(stmt.o, pool[stmt.a[1]], pool[stmt.a[2]])
            IN IF ~Slight(r) THEN UNCHANGED <<pool, hist>>
               ELSE /\ pool' = Append(pool, r)
                    /\ hist' = Append(hist, [c |-> "op", o |-> stmt.o, a |-> stmt.a, n |-> stmt.n, k |-> r.k])
         /\ stmt' = Idle
\* two entries, or the two versions of one
Compare == /\ stmt.c \in {"cmp", "twin"} /\ Full
           /\ \E s, t \in 1..2 : \E p \in Precisions \cup {Default} :
                LET i == stmt.a[1]
                    j == IF stmt.c = "twin" THEN i ELSE stmt.a[2]
                    r == Verdict(i, s, j, t, p)
                IN /\ r # "?"
                   /\ hist' = Append(hist, [c |-> "cmp", a |-> <<i, j>>, s |-> <<s, t>>, p |-> p, k |-> pool[i].k, r |-> r])
           /\ stmt' = Idle
           /\ UNCHANGED pool
IsZero == /\ stmt.c = "zero" /\ Full
          /\ \E s \in 1..2 : \E p \in Precisions \cup {Default} :
               LET r == Nought(pool[stmt.a[1]], s, p)
               IN /\ r # "?"
                  /\ hist' = Append(hist, [c |-> "zero", a |-> stmt.a, s |-> <<s>>, p |-> p, k |-> pool[stmt.a[1]].k, r |-> r])
          /\ stmt' = Idle
          /\ UNCHANGED pool
\* a compound of entries with one of the other versions of these entries; x: one element is exchanged for another entry
Packs == /\ stmt.c = "pack" /\ Full
         /\ \E s, t \in [1..Len(stmt.a) -> 1..2] : \E p \in Precisions \cup {Default} :
              LET r == All([m \in 1..Len(stmt.a) |-> Verdict(stmt.a[m], s[m], stmt.a[m], t[m], p)])
              IN /\ r # "?"
                 /\ hist' = Append(hist, [c |-> "pack", a |-> stmt.a, s |-> Force(s), t |-> Force(t), p |-> p,
                                          ks |-> stmt.ks, r |-> r])
         /\ stmt' = Idle
         /\ UNCHANGED pool
Stop == /\ stmt.c \notin {"-", "end"} /\ ~ENABLED (Form \/ Choose \/ Apply \/ Compare \/ IsZero \/ Packs)
        /\ stmt' = Idle
        /\ UNCHANGED <<pool, hist>>
Finish == /\ stmt.c = "-" /\ Len(hist) >= Steps
          /\ stmt' = [Idle EXCEPT !.c = "end"]
          /\ UNCHANGED <<pool, hist>>
Next == Start \/ Form \/ Choose \/ Apply \/ Compare \/ IsZero \/ Packs \/ Stop \/ Finish

(*--------------------------------- laws ----------------------------------*)
AtEnd == stmt.c = "end"
Comps == {h \in {hist[n] : n \in 1..Len(hist)} : h.c = "cmp"}
\* comparison is symmetric, and a coarser precision accepts what a finer one does
Symmetric == AtEnd => \A h \in Comps : Verdict(h.a[2], h.s[2], h.a[1], h.s[1], h.p) = h.r
Coarser(p, q) == \/ p.c = q.c /\ p.q * q.d <= q.q * p.d
                 \/ p.c = "d" \/ (p.c = "u" /\ q.c = "r")
Monotone == AtEnd => \A h \in Comps : \A q \in Precisions :
              Coarser(h.p, q) /\ h.r = "t" => Verdict(h.a[1], h.s[1], h.a[2], h.s[2], q) # "f"
\* of rotations and transforms: two differences add
Triangle == AtEnd => \A h, g \in Comps : h.k \in {"R", "T"} /\ h.a[2] = g.a[1] /\ h.s[2] = g.s[1] /\ h.r = "t" /\ g.r = "t"
              /\ h.p.c = "u" /\ g.p.c = "u"
              => Verdict(h.a[1], h.s[1], g.a[2], g.s[2], [h.p EXCEPT !.q = @ + g.p.q + 1]) # "f"
Emit == AtEnd => PrintT("@" \o ToJson([vals |-> [i \in 1..NV |-> [k |-> VarKinds[i], v |-> pool[i].v,
                           d |-> <<Side(pool[i], 1), Side(pool[i], 2)>>]], hist |-> hist]))
=============================================================================
