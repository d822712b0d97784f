------------------------------- MODULE Cube -------------------------------
(***************************************************************************)
(* Exact arithmetic in integers: rotations are the 24 rotations of the     *)
(* cube (half turns about its axes among them), vectors have integer       *)
(* coordinates.  A rotation is a matrix, a transform [R, t], any other     *)
(* value a sequence.  Operations act on entries [k: kind, v: value].       *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

(*--------------------------------- values --------------------------------*)
Force(s) == <<>> \o s
Dot3(a, b) == a[1] * b[1] + a[2] * b[2] + a[3] * b[3]
MV(A, v) == <<Dot3(A[1], v), Dot3(A[2], v), Dot3(A[3], v)>>
Col3(A, j) == <<A[1][j], A[2][j], A[3][j]>>
MT(A) == <<Col3(A, 1), Col3(A, 2), Col3(A, 3)>>
MM(A, B) == LET t == MT(B) IN <<MV(t, A[1]), MV(t, A[2]), MV(t, A[3])>>
VAdd(a, b) == Force([i \in 1..Len(a) |-> a[i] + b[i]])
VMul(c, a) == Force([i \in 1..Len(a) |-> c * a[i]])
RECURSIVE SumSq(_, _)
SumSq(v, i) == IF i = 0 THEN 0 ELSE v[i] * v[i] + SumSq(v, i - 1)

I3 == <<<<1, 0, 0>>, <<0, 1, 0>>, <<0, 0, 1>>>>
RX == <<<<1, 0, 0>>, <<0, 0, -1>>, <<0, 1, 0>>>>
RY == <<<<0, 0, 1>>, <<0, 1, 0>>, <<-1, 0, 0>>>>
RZ == <<<<0, -1, 0>>, <<1, 0, 0>>, <<0, 0, 1>>>>
RotPool == <<RX, RY, RZ, MM(RX, RX), MM(RX, RY), MM(MM(RX, RX), RY), MM(RZ, RZ), MM(MM(RY, RY), RZ),
             MM(RY, RX), I3, MM(MM(RX, RY), MM(RX, RX)), MM(RX, MT(RY))>>
VecPool == <<<<1, 2, 3>>, <<-2, 0, 1>>, <<0, 0, 4>>, <<3, -1, 2>>, <<-5, 1, 0>>, <<2, 2, -7>>>>

\* the n-th value of a kind
PoolValue(k, n) ==
    CASE k = "R" -> RotPool[1 + (n % 12)]
      [] k = "T" -> [R |-> RotPool[1 + (n % 12)], t |-> VecPool[1 + ((n \div 2) % 6)]]
      [] k \in {"V", "P", "W"} -> VecPool[1 + (n % 6)]
      [] k = "X" -> VecPool[1 + (n % 6)] \o VecPool[1 + ((n \div 3) % 6)]
      [] k = "S" -> <<(n % 7) - 3>>
      [] k = "D" -> <<<<2, -1, 3, 1, -2>>[1 + (n % 5)]>>       \* a plain number

(*------------------------------- operations ------------------------------*)
AsT(r, t) == [R |-> r, t |-> t]
Consts == <<2, -1, 3>>
Apply1(o, c, a) ==
    CASE o = "inv" /\ a.k = "R" -> [k |-> "R", v |-> MT(a.v)]
      [] o = "inv" /\ a.k = "T" -> [k |-> "T", v |-> AsT(MT(a.v.R), VMul(-1, MV(MT(a.v.R), a.v.t)))]
      [] o = "rotof" /\ a.k = "T" -> [k |-> "R", v |-> a.v.R]
      [] o = "transof" /\ a.k = "T" -> [k |-> "V", v |-> a.v.t]
      [] o = "rotx" -> [k |-> "W", v |-> SubSeq(a.v, 1, 3)]        \* parts of a twist
      [] o = "transx" -> [k |-> "V", v |-> SubSeq(a.v, 4, 6)]
      [] o = "neg" -> [k |-> a.k, v |-> VMul(-1, a.v)]
      [] o = "kmul" -> [k |-> a.k, v |-> VMul(Consts[c], a.v)]
      [] o = "mulk" -> [k |-> a.k, v |-> VMul(Consts[c], a.v)]
      [] o = "sqn" -> [k |-> "S", v |-> <<SumSq(a.v, Len(a.v))>>]
\* exact in integers (b # 0; TLC's \div rounds down)
Divides(o, a, b) == o = "div" => b.v[1] # 0 /\ \A i \in 1..Len(a.v) : a.v[i] = b.v[1] * (a.v[i] \div b.v[1])
Apply2(o, a, b) ==
    CASE o = "comp" /\ a.k = "R" -> [k |-> "R", v |-> MM(a.v, b.v)]
      [] o = "comp" /\ a.k = "T" -> [k |-> "T", v |-> AsT(MM(a.v.R, b.v.R), VAdd(MV(a.v.R, b.v.t), a.v.t))]
      [] o = "rot" -> [k |-> "V", v |-> MV(a.v, b.v)]
      [] o = "trf" -> [k |-> "V", v |-> VAdd(MV(a.v.R, b.v), a.v.t)]
      [] o = "add" -> [k |-> IF b.k = "P" THEN "P" ELSE a.k, v |-> VAdd(a.v, b.v)]
      [] o = "sub" -> [k |-> IF a.k = "P" /\ b.k = "P" THEN "V" ELSE a.k, v |-> VAdd(a.v, VMul(-1, b.v))]
      [] o = "scale" -> [k |-> b.k, v |-> VMul(a.v[1], b.v)]
      [] o = "scaler" -> [k |-> a.k, v |-> VMul(b.v[1], a.v)]
      [] o = "div" -> [k |-> a.k, v |-> Force([i \in 1..Len(a.v) |-> a.v[i] \div b.v[1]])]
      [] o = "dot" -> [k |-> "S", v |-> <<Dot3(a.v, b.v)>>]
=============================================================================
