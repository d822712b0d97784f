------------------------------ MODULE Frames ------------------------------
(***************************************************************************)
(* Which statements are accepted, by reference frames, and the frames of   *)
(* their results.  A state is a program: named quantities (variables,      *)
(* expressions, casts, proxies) with their frames, and the statements      *)
(* tried so far with the verdict on each.  A quantity without frames has   *)
(* the frame N in every position.                                          *)
(*                                                                         *)
(* The rules are justified in the model itself: frames are given poses     *)
(* (rotation, position, rate) and every accepted operation on the true     *)
(* quantities between frames must give the true quantity between the       *)
(* frames of its result (Sound); what is rejected is not a true quantity   *)
(* between any frames (Needed).                                            *)
(***************************************************************************)
EXTENDS Cube, Json

CONSTANTS Names,     \* frames used in programs
          Steps,     \* statements in a program
          OneOps     \* operations enumerated exhaustively (single statements)

VARIABLES pool,    \* quantities: [k, f, src]
          hist,    \* statements
          mode     \* what is done next

vars == <<pool, hist, mode>>

Vec == {"V", "W", "X"}
Kinds == {"R", "T", "P", "V", "W", "X"}
Slots(k) == CASE k \in {"R", "T", "P"} -> 2 [] k \in Vec -> 3 [] k = "S" -> 0
TanOf(k) == IF k = "R" THEN "W" ELSE "X"
GroupOf(k) == IF k = "W" THEN "R" ELSE "T"

L(x) == x.f[1]
M(x) == IF Len(x.f) = 3 THEN x.f[2] ELSE x.f[1]
R(x) == x.f[Len(x.f)]
Unframed(x) == \A i \in 1..Len(x.f) : x.f[i] = "N"

No == [ok |-> "no", k |-> "S", f |-> <<>>]
Open == [ok |-> "any", k |-> "S", f |-> <<>>]      \* not decided here
Yes(k, f) == [ok |-> "yes", k |-> k, f |-> f]
When(b, k, f) == IF b THEN Yes(k, f) ELSE No

(* A result of the form <<l, m, r>>, which as a point must have m = l *)
Aff(k, l, m, r) == IF k # "P" THEN Yes(k, <<l, m, r>>) ELSE When(l = m, "P", <<l, r>>)

SumOf(x, y) ==
    LET k == IF x.k = "P" \/ y.k = "P" THEN "P" ELSE x.k
        first == R(x) = M(y)
        second == R(y) = M(x)
    IN CASE L(x) # L(y) -> No
         [] first -> LET r == Aff(k, L(x), M(x), R(y))
                     IN IF r.ok = "no" /\ second THEN Open ELSE r
         [] ~first /\ second -> Aff(k, L(y), M(y), R(x))
         [] OTHER -> No

DiffOf(x, y) ==
    LET k == IF x.k = "P" /\ y.k = "P" THEN "V" ELSE x.k
    IN CASE L(x) # L(y) -> No
         [] R(x) = R(y) -> LET r == Aff(k, L(x), M(x), M(y))
                           IN IF r.ok = "no" /\ M(x) = M(y) THEN Open ELSE r
         [] R(x) # R(y) /\ M(x) = M(y) -> Aff(k, L(x), R(y), R(x))
         [] OTHER -> No

(* The verdict on an operation and the kind and frames of its result *)
Rule1(o, x, g) ==
    CASE o = "inv" -> Yes(x.k, <<R(x), L(x)>>)
      [] o = "exp" -> Yes(GroupOf(x.k), <<L(x), L(x)>>)
      [] o = "log" -> Yes(TanOf(x.k), <<L(x), L(x), R(x)>>)
      [] o = "logf" -> Yes(TanOf(x.k), <<L(x), L(x), g>>)
      [] o = "neg" -> Yes(x.k, <<L(x), R(x), M(x)>>)
      [] o \in {"nrm", "kmul", "mulk", "divk"} -> Yes(x.k, x.f)
      [] o \in {"norm", "sqn"} -> Yes("S", <<>>)
      [] o = "rotof" -> Yes("R", x.f)
      [] o = "transof" -> Yes("V", <<L(x), L(x), R(x)>>)

Rule2(o, x, y) ==
    CASE o = "comp" -> When(R(x) = L(y), x.k, <<L(x), R(y)>>)
      [] o = "rot" -> When(R(x) = L(y), "V", <<L(x), M(y), R(y)>>)
      [] o = "trf" -> When(R(x) = L(y) /\ R(x) = M(y), "V", <<L(x), L(x), R(y)>>)
      [] o = "bplus" -> When(L(x) = L(y) /\ L(x) = M(y) /\ R(x) = R(y), x.k, <<L(y), R(x)>>)
      [] o = "bminus" -> When(x.f = y.f, TanOf(x.k), <<L(x), L(x), R(y)>>)
      [] o = "add" -> SumOf(x, y)
      [] o = "sub" -> DiffOf(x, y)
      [] o = "scale" -> Yes(y.k, y.f)
      [] o \in {"scaler", "sdiv"} -> Yes(x.k, x.f)
      [] o = "dot" -> IF x.f = y.f THEN Yes("S", <<>>) ELSE Open

Same(x, k, f) == When(x.k = k /\ x.f = f, k, f)

Unary == {<<o, k>> : o \in {"inv", "log", "logf"}, k \in {"R", "T"}} \cup {<<"exp", "W">>, <<"exp", "X">>}
         \cup {<<o, k>> : o \in {"neg", "nrm", "kmul", "mulk", "divk", "norm", "sqn"}, k \in Vec}
         \cup {<<"rotof", "T">>, <<"transof", "T">>}
Binary == {<<"comp", "R", "R">>, <<"comp", "T", "T">>, <<"rot", "R", "V">>, <<"trf", "T", "V">>,
           <<"bplus", "R", "W">>, <<"bplus", "T", "X">>, <<"bminus", "R", "R">>, <<"bminus", "T", "T">>,
           <<"add", "P", "V">>, <<"add", "V", "P">>, <<"sub", "P", "V">>, <<"sub", "P", "P">>}
          \cup {<<o, k, k>> : o \in {"add", "sub", "dot"}, k \in Vec}
          \cup {<<"scale", "S", k>> : k \in Vec} \cup {<<o, k, "S">> : o \in {"scaler", "sdiv"}, k \in Vec}

Q(k, f) == [k |-> k, f |-> f, src |-> "leaf"]

(*------------------------- one statement, exhaustively -------------------*)
(* Frames up to renaming: the i-th slot has the name of an earlier slot or *)
(* the next new name; each operand may be without frames instead.          *)
SlotNames == <<"A", "B", "C", "D", "E", "F">>
RECURSIVE Partitions(_)
Partitions(n) ==    \* sequences in which each number is at most one above those before
    IF n = 0 THEN {<<>>}
    ELSE UNION {LET m == IF p = <<>> THEN 0 ELSE CHOOSE x \in {p[i] : i \in 1..Len(p)} :
                                                      \A i \in 1..Len(p) : p[i] <= x
                IN {Append(p, i) : i \in 1..(m + 1)} : p \in Partitions(n - 1)}
Named(p) == Force([i \in 1..Len(p) |-> SlotNames[p[i]]])
Ns(n) == Force([i \in 1..n |-> "N"])
FrameChoices(n) == {Named(p) : p \in Partitions(n)}
PairChoices(a, b) ==
    IF a = 0 \/ b = 0
    THEN {<<SubSeq(f, 1, a), SubSeq(f, a + 1, a + b)>> : f \in FrameChoices(a + b) \cup {Ns(a + b)}}
    ELSE {<<SubSeq(f, 1, a), SubSeq(f, a + 1, a + b)>> : f \in FrameChoices(a + b) \cup {Ns(a + b)}}
         \cup {<<Named([i \in 1..a |-> i]), Ns(b)>>, <<Ns(a), Named([i \in 1..b |-> i])>>,
               <<[i \in 1..a |-> "A"], Ns(b)>>, <<Ns(a), [i \in 1..b |-> "A"]>>}

S1(o, x, g) == LET v == Rule1(o, x, g) IN [c |-> "op", o |-> o, a |-> <<1>>, g |-> g, v |-> v]
S2(o, x, y) == [c |-> "op", o |-> o, a |-> <<1, 2>>, g |-> "N", v |-> Rule2(o, x, y)]
(* making a variable, assigning, holding in a proxy *)
SM(c, x, k, f) == [c |-> c, o |-> c, a |-> <<1, 2>>, g |-> "N", v |-> Same(x, k, f)]

InitOne ==
    /\ mode = "one"
    /\ \/ \E u \in Unary : u[1] \in OneOps /\
            \E f \in FrameChoices(Slots(u[2])) \cup {Ns(Slots(u[2]))} :
              \E g \in (IF u[1] = "logf" THEN {SlotNames[i] : i \in 1..3} ELSE {"N"}) :
                /\ u[1] = "logf" => f # Ns(Slots(u[2]))
                /\ pool = <<Q(u[2], f)>>
                /\ hist = <<S1(u[1], Q(u[2], f), g)>>
       \/ \E u \in Binary : u[1] \in OneOps /\
            \E f \in PairChoices(Slots(u[2]), Slots(u[3])) :
                /\ pool = <<Q(u[2], f[1]), Q(u[3], f[2])>>
                /\ hist = <<S2(u[1], Q(u[2], f[1]), Q(u[3], f[2]))>>
       \/ \E c \in {"make", "assign", "proxy"} \cap OneOps : \E k \in Kinds :
            \E f \in PairChoices(Slots(k), Slots(k)) :
                /\ pool = <<Q(k, f[1]), Q(k, f[2])>>
                /\ hist = <<SM(c, Q(k, f[1]), k, f[2])>>
       \/ \E c \in {"part"} \cap OneOps : \E k \in {"R", "V"} :       \* T.rotation() = ..., T.translation() = ...
            \E f \in PairChoices(Slots(k), 2) :
              LET t == Q("T", f[2])
                  v == Same(Q(k, f[1]), k, IF k = "R" THEN f[2] ELSE <<L(t), L(t), R(t)>>)
              IN /\ pool = <<Q(k, f[1]), t>>
                 /\ hist = <<[c |-> "part", o |-> "part", a |-> <<1, 2>>, g |-> "N", v |-> v]>>
NextOne == UNCHANGED vars

(* poses of the frames *)
Idx(n) == CASE n = "N" -> 0 [] n = "A" -> 1 [] n = "B" -> 2 [] n = "C" -> 3 [] n = "D" -> 4 [] n = "E" -> 5
            [] n = "F" -> 6
Pose(n, s) == [R |-> RotPool[1 + ((Idx(n) * 5 + s * 7) % 12)],
               t |-> LET i == Idx(n) IN <<17 * i * i + 5 * s, 31 * i - i * i * i * (s + 1), 13 * i + s * i * i>>,
               w |-> LET i == Idx(n) IN <<3 * i * i * i - s, 7 * i + 29 * i * i * s, i * i - 41 * i + s>>]
Minus3(a, b) == VAdd(a, VMul(-1, b))
Truth(k, f, s) ==
    LET l == Pose(f[1], s)
        r == Pose(f[Len(f)], s)
        m == Pose(IF Len(f) = 3 THEN f[2] ELSE f[1], s)
        In(v) == MV(MT(l.R), v)
    IN CASE k = "R" -> MM(MT(l.R), r.R)
         [] k = "T" -> AsT(MM(MT(l.R), r.R), In(Minus3(r.t, l.t)))
         [] k \in {"V", "P"} -> In(Minus3(r.t, m.t))
         [] k = "W" -> In(Minus3(r.w, m.w))
         [] k = "X" -> In(Minus3(r.w, m.w)) \o In(Minus3(r.t, m.t))
Samples == 1..4
Geometric == {"comp", "inv", "rot", "trf", "add", "sub", "neg", "rotof", "transof"}
Val(o, s) == LET x == [k |-> pool[1].k, v |-> Truth(pool[1].k, pool[1].f, s)]
             IN IF Len(pool) = 1 THEN Apply1(o, 1, x).v
                ELSE Apply2(o, x, [k |-> pool[2].k, v |-> Truth(pool[2].k, pool[2].f, s)]).v
Sound == (mode = "one" /\ hist[1].c = "op" /\ hist[1].o \in Geometric /\ hist[1].v.ok = "yes") =>
           \A s \in Samples : Val(hist[1].o, s) = Truth(hist[1].v.k, hist[1].v.f, s)
\* (between equal frames there is only the identity, or zero, which fits anywhere)
Trivial == \E i \in 1..Len(pool) : M(pool[i]) = R(pool[i])
Needed == (mode = "one" /\ hist[1].c = "op" /\ hist[1].o \in Geometric /\ hist[1].v.ok = "no" /\ ~Trivial
              \* T_AB (p_A - p_C) is p_B - p_C by coincidence, but not the map of a point
            /\ hist[1].o # "trf") =>
            LET names == UNION {{pool[i].f[j] : j \in 1..Len(pool[i].f)} : i \in 1..Len(pool)}
                k == CASE hist[1].o = "add" -> IF pool[2].k = "P" THEN "P" ELSE pool[1].k
                       [] hist[1].o = "sub" -> IF pool[2].k = "P" THEN "V" ELSE pool[1].k
                       [] hist[1].o \in {"rot", "trf"} -> "V"
                       [] OTHER -> pool[1].k
                fs == IF Slots(k) = 3 THEN names \X names \X names ELSE names \X names
            IN ~\E f \in fs : \A s \in Samples : Val(hist[1].o, s) = Truth(k, f, s)
EmitOne == mode = "one" => PrintT("@" \o ToJson([pool |-> pool, hist |-> hist]))

(*------------------------------ programs ---------------------------------*)
InitMany == pool = <<>> /\ hist = <<>> /\ mode = "leaf"

Modes == {"leaf", "op", "op2", "op3", "op4", "bad", "make", "cast", "proxy", "badmake"}
Log(h) == hist' = Append(hist, h)
Put(v, src) == pool' = IF v.ok = "yes" THEN Append(pool, [k |-> v.k, f |-> v.f, src |-> src]) ELSE pool
FrameTuples(n) == [1..n -> Names]
Fr(n) == {Force(t) : t \in FrameTuples(n)}

Leaf == /\ mode = "leaf"
        /\ \E k \in Kinds \cup {"S"} : \E f \in (IF k = "S" THEN {<<>>} ELSE Fr(Slots(k))) :
             /\ pool' = Append(pool, Q(k, f))
             /\ Log([c |-> "leaf", o |-> "leaf", a |-> <<>>, g |-> "N", v |-> Yes(k, f)])
        /\ mode' = "pick"

Apply(verdicts) ==
    /\ \/ \E u \in Unary : \E i \in 1..Len(pool) :
            /\ pool[i].k = u[2]
            /\ \E g \in (IF u[1] = "logf" THEN Names ELSE {"N"}) :
                 LET v == Rule1(u[1], pool[i], g)
                 IN /\ v.ok \in verdicts
                    /\ Put(v, "expr")
                    /\ Log([c |-> "op", o |-> u[1], a |-> <<i>>, g |-> g, v |-> v])
       \/ \E u \in Binary : \E i, j \in 1..Len(pool) :
            /\ pool[i].k = u[2] /\ pool[j].k = u[3]
            /\ LET v == Rule2(u[1], pool[i], pool[j])
               IN /\ v.ok \in verdicts
                  /\ Put(v, "expr")
                  /\ Log([c |-> "op", o |-> u[1], a |-> <<i, j>>, g |-> "N", v |-> v])
    /\ mode' = "pick"
ApplyBinary ==
    /\ \E u \in Binary : \E i, j \in 1..Len(pool) :
            /\ pool[i].k = u[2] /\ pool[j].k = u[3] /\ u[1] \notin {"scale", "scaler", "sdiv"}
            /\ LET v == Rule2(u[1], pool[i], pool[j])
               IN /\ v.ok = "yes"
                  /\ Put(v, "expr")
                  /\ Log([c |-> "op", o |-> u[1], a |-> <<i, j>>, g |-> "N", v |-> v])
    /\ mode' = "pick"

MakeVar(c, verdicts) ==
    /\ \E i \in 1..Len(pool) :
         /\ pool[i].k \in Kinds
         /\ \E f \in {pool[i].f} \cup Fr(Slots(pool[i].k)) :
              LET v == Same(pool[i], pool[i].k, f)
              IN /\ v.ok \in verdicts
                 /\ Put(v, IF c = "proxy" THEN "proxy" ELSE "leaf")
                 /\ Log([c |-> c, o |-> c, a |-> <<i>>, g |-> "N", v |-> [v EXCEPT !.k = pool[i].k, !.f = f]])
    /\ mode' = "pick"

Cast == /\ \E i \in 1..Len(pool) :
             /\ pool[i].k \in Kinds
             /\ \E f \in Fr(Slots(pool[i].k)) :
                  LET v == Yes(pool[i].k, f)
                  IN Put(v, "expr") /\ Log([c |-> "cast", o |-> "cast", a |-> <<i>>, g |-> "N", v |-> v])
        /\ mode' = "pick"

Pick == /\ mode = "pick"
        /\ Len(hist) < Steps
        /\ mode' \in (IF Len(pool) < 3 THEN {"leaf"} ELSE Modes)
        /\ UNCHANGED <<pool, hist>>
Stuck == mode \notin {"pick", "leaf", "end"} /\ mode' = "pick" /\ UNCHANGED <<pool, hist>>
Finish == mode = "pick" /\ Len(hist) >= Steps /\ mode' = "end" /\ UNCHANGED <<pool, hist>>
NextMany == \/ Leaf \/ Pick \/ Finish
            \/ mode = "op" /\ Apply({"yes"})
            \/ mode \in {"op2", "op3", "op4"} /\ ApplyBinary
            \/ mode = "bad" /\ Apply({"no"})
            \/ mode = "make" /\ MakeVar("make", {"yes"})
            \/ mode = "badmake" /\ (MakeVar("make", {"no"}) \/ MakeVar("proxy", {"no"}))
            \/ mode = "proxy" /\ MakeVar("proxy", {"yes"})
            \/ mode = "cast" /\ Cast
            \/ Stuck

(* Results have as many frames as their kind has places; nothing is partly without frames *)
TypeOK == \A i \in 1..Len(pool) : /\ Len(pool[i].f) = Slots(pool[i].k)
                                  /\ \A j \in 1..Len(pool[i].f) : pool[i].f[j] \in Names \cup {"N"} \cup {SlotNames[n] : n \in 1..6}
Whole == mode = "one" /\ hist[1].v.ok = "yes" /\ hist[1].v.f # <<>> /\ hist[1].g = "N" =>
           ((\A j \in 1..Len(hist[1].v.f) : hist[1].v.f[j] = "N") \/ (\A j \in 1..Len(hist[1].v.f) : hist[1].v.f[j] # "N"))
EmitMany == mode = "end" => PrintT("@" \o ToJson([pool |-> pool, hist |-> hist]))
=============================================================================
