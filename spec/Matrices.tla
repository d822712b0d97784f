----------------------------- MODULE Matrices -----------------------------
(***************************************************************************)
(* Matrices and the structured forms which stand for them: cross-product   *)
(* matrices, identities, matrices and diagonals with a block per variable, *)
(* and maps from variables to matrices.  A state is a program: named       *)
(* values and objects with their contents.  A matrix is a sequence of rows.*)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Steps, MaxPool

VARIABLES pool,   \* values [f, m]: form (m static, d dynamic, x cross, i identity) and matrix
          blk,    \* matrices with blocks, one per layout
          dg,     \* diagonal with blocks
          map,    \* map from keys to matrices: [n rows, k key -> matrix]
          stmt, hist
vars == <<pool, blk, dg, map, stmt, hist>>

Force(s) == <<>> \o s
Rows(m) == Len(m)
Cols(m) == Len(m[1])
Mat(r, c, F(_, _)) == Force([i \in 1..r |-> Force([j \in 1..c |-> F(i, j)])])
RECURSIVE Dot(_, _, _, _, _)
Dot(a, b, i, j, k) == IF k = 0 THEN 0 ELSE a[i][k] * b[k][j] + Dot(a, b, i, j, k - 1)
Mul(a, b) == Mat(Rows(a), Cols(b), LAMBDA i, j : Dot(a, b, i, j, Cols(a)))
Add(a, b, s) == Mat(Rows(a), Cols(a), LAMBDA i, j : a[i][j] + s * b[i][j])
Scale(n, a) == Mat(Rows(a), Cols(a), LAMBDA i, j : n * a[i][j])
Trans(a) == Mat(Cols(a), Rows(a), LAMBDA i, j : a[j][i])
Ident(n) == Mat(n, n, LAMBDA i, j : IF i = j THEN 1 ELSE 0)
Diag(v) == Mat(Len(v), Len(v), LAMBDA i, j : IF i = j THEN v[i] ELSE 0)
Cross(v) == <<<<0, -v[3][1], v[2][1]>>, <<v[3][1], 0, -v[1][1]>>, <<-v[2][1], v[1][1], 0>>>>
Uncross(m) == <<<<m[3][2]>>, <<m[1][3]>>, <<m[2][1]>>>>
\* the matrix with block b written at row r, column c
Put(m, r, c, b) == Mat(Rows(m), Cols(m), LAMBDA i, j :
    IF i \in r..(r + Rows(b) - 1) /\ j \in c..(c + Cols(b) - 1) THEN b[i - r + 1][j - c + 1] ELSE m[i][j])
Get(m, r, h, c, w) == Mat(h, w, LAMBDA i, j : m[r + i - 1][c + j - 1])
Small(m) == \A i \in 1..Rows(m) : \A j \in 1..Cols(m) : m[i][j] \in -3000..3000

\* some entries, different everywhere
Some(r, c, s) == Mat(r, c, LAMBDA i, j : ((7 * i * i + 5 * j + 3 * s * i * j + s) % 11) - 5)

\* layouts of block matrices: heights and widths of the blocks
Layouts == << <<<<3, 1, 6>>, <<1, 6, 3>>>>, <<<<3, 3>>, <<3, 3>>>>, <<<<1, 3>>, <<1>>>>, <<<<3, 3, 1>>, <<6, 1, 3, 1>>>>,
              <<<<6, 1>>, <<3>>>>, <<<<3>>, <<3, 3>>>> >>
RECURSIVE Sum(_, _)
Sum(s, n) == IF n = 0 THEN 0 ELSE s[n] + Sum(s, n - 1)
Start(s, i) == 1 + Sum(s, i - 1)
DSizes == <<3, 1>>       \* blocks of the diagonal
Keys == {1, 2, 3, 4}
Width == <<3, 1, 6, 2>>
MapRows == 3

Idle == [c |-> "-", o |-> "-", a |-> <<>>, n |-> 0]
Init == /\ \E s \in 0..3 :
             /\ pool = <<[f |-> "m", m |-> Some(3, 1, s)], [f |-> "m", m |-> Some(3, 1, s + 5)],
                         [f |-> "m", m |-> Some(1, 3, s + 2)], [f |-> "m", m |-> Some(3, 3, s + 1)],
                         [f |-> "m", m |-> Some(3, 6, s + 3)], [f |-> "m", m |-> Some(2, 3, s + 4)],
                         [f |-> "d", m |-> Some(3, 3, s + 6)], [f |-> "d", m |-> Some(6, 3, s + 2)],
                         [f |-> "i", m |-> Ident(3)], [f |-> "i", m |-> Ident(6)], [f |-> "m", m |-> Some(4, 2, s + 8)]>>
             /\ blk = [l \in 1..Len(Layouts) |->
                          Some(Sum(Layouts[l][1], Len(Layouts[l][1])), Sum(Layouts[l][2], Len(Layouts[l][2])), s + l)]
             /\ dg = Force([i \in 1..4 |-> ((3 * i + s) % 7) - 2])
             /\ map = [k \in Keys |-> Some(MapRows, Width[k], s + k)]
        /\ stmt = Idle
        /\ hist = <<[c |-> "init", blk |-> blk, dg |-> dg, map |-> [k \in 1..4 |-> map[k]]]>>

Log(h) == hist' = Append(hist, h)

(*--------------------------------- values --------------------------------*)
Vec(e) == e.f = "m" /\ Rows(e.m) = 3 /\ Cols(e.m) = 1
Square3(e) == Rows(e.m) = 3 /\ Cols(e.m) = 3
Skew(e) == Square3(e) /\ e.m = Scale(-1, Trans(e.m)) /\ e.f # "d" /\ e.f # "i"
Can1(o, e) == CASE o = "cross" -> Vec(e)
                [] o = "uncross" -> Skew(e)
                [] o = "left2" -> Cols(e.m) >= 3
                [] o = "low2" -> Rows(e.m) >= 3
                [] OTHER -> TRUE
Apply1(o, n, e) ==
    CASE o = "cross" -> Cross(e.m)
      [] o = "uncross" -> Uncross(e.m)
      [] o = "neg" -> Scale(-1, e.m)
      [] o = "trans" -> Trans(e.m)
      [] o = "kmul" -> Scale(n, e.m)
      [] o = "mulk" -> Scale(n, e.m)
      [] o = "left2" -> Get(e.m, 1, Rows(e.m), 1, 2)
      [] o = "low2" -> Get(e.m, Rows(e.m) - 1, 2, 1, Cols(e.m))
Form1(o, e) == IF o = "cross" \/ (o = "neg" /\ e.f = "x") THEN "x" ELSE "m"
Can2(o, a, b) == IF o = "mul" THEN Cols(a.m) = Rows(b.m)
                 ELSE Rows(a.m) = Rows(b.m) /\ Cols(a.m) = Cols(b.m)
Apply2(o, a, b) == CASE o = "mul" -> Mul(a.m, b.m) [] o = "add" -> Add(a.m, b.m, 1) [] o = "sub" -> Add(a.m, b.m, -1)
Form2(o, a, b) == IF o = "mul" /\ a.f = "i" THEN b.f
                  ELSE IF o = "mul" /\ b.f = "i" THEN a.f ELSE "m"

Begin(c, o, n) == stmt' = [c |-> c, o |-> o, a |-> <<>>, n |-> n]
\* the operands, one after the other
Need == IF stmt.c = "op2" THEN 2 ELSE IF stmt.c = "op1" THEN 1 ELSE 0
Choose == /\ Len(stmt.a) < Need
          /\ \E i \in 1..Len(pool) :
               /\ IF stmt.c = "op1" THEN Can1(stmt.o, pool[i])
                  ELSE IF Len(stmt.a) = 0 THEN TRUE ELSE Can2(stmt.o, pool[stmt.a[1]], pool[i])
               /\ stmt' = [stmt EXCEPT !.a = Append(@, i)]
          /\ UNCHANGED <<pool, blk, dg, map, hist>>
Apply == /\ Need > 0 /\ Len(stmt.a) = Need
         /\ LET a == pool[stmt.a[1]]
                b == pool[stmt.a[Need]]
                m == IF Need = 1 THEN Apply1(stmt.o, stmt.n, a) ELSE Apply2(stmt.o, a, b)
                f == IF Need = 1 THEN Form1(stmt.o, a) ELSE Form2(stmt.o, a, b)
            IN IF ~Small(m) THEN UNCHANGED <<pool, hist>>
               ELSE \E g \in (IF f = "m" THEN {"m", "m", "d"} ELSE {f}) :
                      /\ pool' = Append(pool, [f |-> g, m |-> m])
                      /\ Log([c |-> "op", o |-> stmt.o, a |-> stmt.a, n |-> stmt.n, f |-> g, m |-> m])
         /\ stmt' = Idle
         /\ UNCHANGED <<blk, dg, map>>

(*--------------------------------- objects -------------------------------*)
H(l, i) == IF i = 0 THEN Rows(blk[l]) ELSE Layouts[l][1][i]
W(l, j) == IF j = 0 THEN Cols(blk[l]) ELSE Layouts[l][2][j]
R0(l, i) == IF i = 0 THEN 1 ELSE Start(Layouts[l][1], i)
C0(l, j) == IF j = 0 THEN 1 ELSE Start(Layouts[l][2], j)
\* block (i, j); i = 0: all rows, j = 0: all columns
Part(l, i, j) == Get(blk[l], R0(l, i), H(l, i), C0(l, j), W(l, j))
Fits(e, h, w) == Rows(e.m) = h /\ Cols(e.m) = w
Hows == {"set", "add", "sub"}
Result(how, old, new) == CASE how = "set" -> new [] how = "add" -> Add(old, new, 1) [] how = "sub" -> Add(old, new, -1)

\* where = <<l, i, j>>: block (i, j) of matrix l
Parts == UNION {{<<l, i, j>> : i \in 0..Len(Layouts[l][1]), j \in 0..Len(Layouts[l][2])} \ {<<l, 0, 0>>} : l \in 1..Len(Layouts)}
Aim(c) == \E p \in Parts : \E how \in (IF c = "read" THEN {"get", "mul"} ELSE Hows \cup {"lmul", "rmul", "neg"}) :
            stmt' = [c |-> c, o |-> how, a |-> p, n |-> 0]
PH == H(stmt.a[1], stmt.a[2])
PW == W(stmt.a[1], stmt.a[3])
\* a block becomes (or grows by) a value of its size, or a product of itself
Write == /\ stmt.c = "write"
         /\ LET l == stmt.a[1]
                i == stmt.a[2]
                j == stmt.a[3]
                how == stmt.o
            IN \E v \in 1..Len(pool) :
                /\ IF how = "lmul" THEN Fits(pool[v], PH, PH)
                   ELSE IF how = "rmul" THEN Fits(pool[v], PW, PW)
                   ELSE IF how = "neg" THEN v = 1
                   ELSE Fits(pool[v], PH, PW)
                /\ LET new == CASE how = "lmul" -> Mul(pool[v].m, Part(l, i, j))
                                [] how = "rmul" -> Mul(Part(l, i, j), pool[v].m)
                                [] how = "neg" -> Scale(-1, Part(l, i, j))
                                [] OTHER -> Result(how, Part(l, i, j), pool[v].m)
                   IN /\ Small(new)
                      /\ blk' = [blk EXCEPT ![l] = Put(@, R0(l, i), C0(l, j), new)]
                      /\ Log([c |-> "write", l |-> l, i |-> i, j |-> j, v |-> v, how |-> how, m |-> blk'[l]])
         /\ UNCHANGED <<pool, dg, map>>
Zero == /\ \E l \in 1..Len(Layouts) : /\ blk' = [blk EXCEPT ![l] = Scale(0, @)]
                                      /\ Log([c |-> "zero", l |-> l])
        /\ UNCHANGED <<pool, dg, map>>
\* the value of a block, also used in a product
Read == /\ stmt.c = "read"
        /\ LET l == stmt.a[1]
               i == stmt.a[2]
               j == stmt.a[3]
           IN \E v \in (IF stmt.o = "get" THEN {0} ELSE {v \in 1..Len(pool) : Rows(pool[v].m) = PW}) :
                LET m == IF v = 0 THEN Part(l, i, j) ELSE Mul(Part(l, i, j), pool[v].m)
                IN /\ Small(m)
                   /\ pool' = Append(pool, [f |-> "m", m |-> m])
                   /\ Log([c |-> "read", l |-> l, i |-> i, j |-> j, v |-> v, m |-> m])
        /\ UNCHANGED <<blk, dg, map>>
\* one block of a map
MapAim == \E k \in Keys : \E how \in Hows \cup {"lmul"} : stmt' = [c |-> "mapwrite", o |-> how, a |-> <<k>>, n |-> 0]
MapWrite == /\ stmt.c = "mapwrite"
            /\ LET k == stmt.a[1]
                   how == stmt.o
               IN \E v \in 1..Len(pool) :
                 /\ IF how = "lmul" THEN Fits(pool[v], MapRows, MapRows) ELSE Fits(pool[v], MapRows, Width[k])
                 /\ LET new == IF how = "lmul" THEN Mul(pool[v].m, map[k]) ELSE Result(how, map[k], pool[v].m)
                    IN /\ Small(new)
                       /\ map' = [map EXCEPT ![k] = new]
                       /\ Log([c |-> "mapwrite", k |-> k, v |-> v, how |-> how])
            /\ UNCHANGED <<pool, blk, dg>>
MapZero == /\ map' = [k \in Keys |-> Scale(0, map[k])]
           /\ Log([c |-> "mapzero"])
           /\ UNCHANGED <<pool, blk, dg>>
MapRead == /\ \E k \in Keys : /\ pool' = Append(pool, [f |-> "d", m |-> map[k]])
                              /\ Log([c |-> "mapread", k |-> k, m |-> map[k]])
           /\ UNCHANGED <<blk, dg, map>>
\* the diagonal: a segment is set, or it multiplies a value
DSet == /\ \E i \in 1..2 : \E s \in 1..4 :
             LET seg == Force([x \in 1..DSizes[i] |-> ((5 * x + s) % 9) - 4])
             IN /\ dg' = Force([x \in 1..4 |-> IF x \in Start(DSizes, i)..(Start(DSizes, i) + DSizes[i] - 1)
                                              THEN seg[x - Start(DSizes, i) + 1] ELSE dg[x]])
                /\ Log([c |-> "dset", i |-> i, seg |-> seg, m |-> dg'])
        /\ UNCHANGED <<pool, blk, map>>
DMul == /\ \E v \in 1..Len(pool) : \E left \in BOOLEAN :
             /\ pool[v].f \in {"m", "d"}
             /\ (IF left THEN Rows(pool[v].m) ELSE Cols(pool[v].m)) = 4
             /\ LET m == IF left THEN Mul(Diag(dg), pool[v].m) ELSE Mul(pool[v].m, Diag(dg))
                IN /\ Small(m)
                   /\ pool' = Append(pool, [f |-> "m", m |-> m])
                   /\ Log([c |-> "dmul", v |-> v, left |-> left, m |-> m])
        /\ UNCHANGED <<blk, dg, map>>

(*-------------------------------- behaviour ------------------------------*)
Room == Len(pool) < MaxPool
StartStmt == /\ stmt.c = "-" /\ Len(hist) < Steps
             /\ stmt' \in {[Idle EXCEPT !.c = c] : c \in {"cross", "mul1", "mul2", "mul3", "other", "write1", "write2", "write3",
                              "newread", "zero", "mapw1", "mapw2", "mapzero", "mapread", "dset", "dmul"}}
             /\ UNCHANGED <<pool, blk, dg, map, hist>>
Form == /\ \/ Room /\ stmt.c = "cross" /\ \E o \in {"cross", "neg", "uncross", "trans"} : Begin("op1", o, 0)
           \/ Room /\ stmt.c \in {"mul1", "mul2", "mul3"} /\ Begin("op2", "mul", 0)
           \/ /\ Room /\ stmt.c = "other"
              /\ \/ \E o \in {"left2", "low2", "neg"} : Begin("op1", o, 0)
                 \/ \E o \in {"kmul", "mulk"} : \E n \in {2, -3} : Begin("op1", o, n)
                 \/ \E o \in {"add", "sub"} : Begin("op2", o, 0)
           \/ stmt.c \in {"write1", "write2", "write3"} /\ Aim("write")
           \/ Room /\ stmt.c = "newread" /\ Aim("read")
           \/ stmt.c \in {"mapw1", "mapw2"} /\ MapAim
        /\ UNCHANGED <<pool, blk, dg, map, hist>>
Simple == /\ \/ Write
             \/ stmt.c = "zero" /\ Zero
             \/ Read
             \/ MapWrite
             \/ stmt.c = "mapzero" /\ MapZero
             \/ stmt.c = "mapread" /\ Room /\ MapRead
             \/ stmt.c = "dset" /\ DSet
             \/ stmt.c = "dmul" /\ Room /\ DMul
          /\ stmt' = Idle
Drop == /\ stmt.c \notin {"-", "end"}
        /\ ~ENABLED (Form \/ Simple \/ Choose \/ Apply)
        /\ stmt' = Idle
        /\ UNCHANGED <<pool, blk, dg, map, hist>>
Finish == /\ stmt.c = "-" /\ Len(hist) >= Steps
          /\ stmt' = [Idle EXCEPT !.c = "end"]
          /\ UNCHANGED <<pool, blk, dg, map, hist>>
Next == StartStmt \/ Form \/ Choose \/ Apply \/ Simple \/ Drop \/ Finish

(*---------------------------- sanity of the forms ------------------------*)
Vecs == {pool[i].m : i \in {i \in 1..Len(pool) : Vec(pool[i])}}
CrossIsCross == stmt.c = "end" =>   \* anticommutes, annihilates its vector, and uncross undoes it
    \A a, b \in Vecs : /\ Mul(Cross(a), b) = Scale(-1, Mul(Cross(b), a))
                       /\ Mul(Cross(a), a) = Scale(0, a)
                       /\ Uncross(Cross(a)) = a
\* blocks tile the matrix: all blocks together, and nothing else
RECURSIVE Tile(_, _, _, _)
Tile(l, m, i, j) == IF i = 0 THEN m
                    ELSE IF j = 0 THEN Tile(l, m, i - 1, Len(Layouts[l][2]))
                    ELSE Tile(l, Put(m, R0(l, i), C0(l, j), Part(l, i, j)), i, j - 1)
BlocksTile == stmt.c = "end" => \A l \in 1..Len(Layouts) : Tile(l, Scale(0, blk[l]), Len(Layouts[l][1]), Len(Layouts[l][2])) = blk[l]
Forms == stmt.c = "end" => \A i \in 1..Len(pool) : /\ pool[i].f = "i" => pool[i].m = Ident(Rows(pool[i].m))
                                 /\ pool[i].f = "x" => Skew([f |-> "x", m |-> pool[i].m])
Emit == stmt.c = "end" => PrintT("@" \o ToJson([
            init |-> SubSeq(pool, 1, 11),
            hist |-> hist, blk |-> blk, dg |-> dg, map |-> [k \in 1..4 |-> map[k]]]))
=============================================================================
