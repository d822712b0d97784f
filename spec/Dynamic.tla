------------------------------ MODULE Dynamic ------------------------------
(***************************************************************************)
(* Expressions with run-time typing.  Objects on the heap hold expressions *)
(* over variables (by reference), temporaries (by value) and other heap    *)
(* objects.  A proxy is a register naming a heap object; an expression     *)
(* built from a proxy holds the object which the proxy names at that time. *)
(* A reference proxy does the same for objects that live elsewhere.        *)
(*                                                                         *)
(* The forms of expression come from a file:                               *)
(*   [id, k: kind, toks, direct, alone]  postfix tokens [o, k, c, n], o an *)
(*   operation or "p" proxy, "r" reference proxy, "v" variable,            *)
(*   "t" temporary; alone: just a proxy, of which only a reference proxy   *)
(*   makes a new object                                                    *)
(***************************************************************************)
EXTENDS CubeJac, Json, IOUtils

CONSTANT Steps

Forms == JsonDeserialize(IOEnv.FORMS)

VarTable == <<"R", "R", "T", "T", "V", "V", "P", "S", "S">>
NV == Len(VarTable)
Vars == 1..NV
Kinds == {"R", "T", "V", "P", "S"}
\* registers: proxies 1, 2 and reference proxies 3, 4 of each kind
Proxies == {1, 2}
Refs == {3, 4}
Temps == {3, 5, 8}

VARIABLES val,    \* value of each variable
          heap,   \* sequence of [k, toks]; operands are resolved
          reg,    \* reg[k][i]: heap object
          stmt,   \* statement being formed
          toks,   \* resolved tokens so far
          hist
vars == <<val, heap, reg, stmt, toks, hist>>

Idle == [c |-> "-"]

(*------------------------------- evaluation ------------------------------*)
NT == NV + Len(heap)     \* targets: variables, then heap objects
RECURSIVE EvalToks(_, _, _), EvalObj(_)
EvalToks(ts, i, st) ==
    IF i > Len(ts) THEN st[1]
    ELSE LET t == ts[i]
             n == Len(st)
         IN EvalToks(ts, i + 1,
              CASE t.o = "var" -> Append(st, Target(VarTable[t.i], val[t.i], t.i, NT))
                [] t.o = "tmp" -> Append(st, Constant(t.k, PoolValue(t.k, t.i), NT))
                [] t.o = "obj" -> Append(st, EvalObj(t.i))
                [] t.n = 1 -> SubSeq(st, 1, n - 1) \o <<Do1(t.o, t.i, st[n])>>
                [] t.n = 2 -> SubSeq(st, 1, n - 2) \o <<Do2(t.o, st[n - 1], st[n])>>)
EvalObj(id) == Mark(EvalToks(heap[id].toks, 1, <<>>), NV + id)

RECURSIVE Size(_, _)
Size(ts, i) == IF i > Len(ts) THEN 0
               ELSE (IF ts[i].o = "obj" THEN heap[ts[i].i].size ELSE 1) + Size(ts, i + 1)
\* variables an expression refers to
RECURSIVE Leaves(_, _)
Leaves(ts, i) == IF i > Len(ts) THEN {}
                 ELSE (CASE ts[i].o = "var" -> {ts[i].i}
                         [] ts[i].o = "obj" -> heap[ts[i].i].leaves
                         [] OTHER -> {}) \cup Leaves(ts, i + 1)

FlatV(k, v) == CASE k = "R" -> v[1] \o v[2] \o v[3] [] k = "T" -> v.R[1] \o v.R[2] \o v.R[3] \o v.t [] OTHER -> v
\* what is observed of an entry
Seen(e) == IF e.big THEN [big |-> TRUE]
           ELSE [big |-> FALSE, v |-> FlatV(e.k, e.v),
                 j |-> {<<i, e.j[i]>> : i \in {m \in 1..Len(e.j) : e.j[m] # <<>>}}]

(*--------------------------------- actions -------------------------------*)
Pick == /\ stmt = Idle
        /\ Len(hist) < Steps
        /\ \E c \in {"new", "copy", "set", "look"} : stmt' = [c |-> c]
        /\ UNCHANGED <<val, heap, reg, toks, hist>>

PickForm == /\ stmt.c = "new"
            /\ \E f \in 1..Len(Forms) : stmt' = [c |-> "fill", f |-> f, at |-> 1]
            /\ toks' = <<>>
            /\ UNCHANGED <<val, heap, reg, hist>>

Tok == Forms[stmt.f].toks[stmt.at]
Push(t) == /\ toks' = Append(toks, t)
           /\ stmt' = [stmt EXCEPT !.at = @ + 1]
           /\ UNCHANGED <<val, heap, reg, hist>>
Fill == /\ stmt.c = "fill"
        /\ stmt.at <= Len(Forms[stmt.f].toks)
        /\ CASE Tok.o = "p" -> \E i \in Proxies : Push([o |-> "obj", i |-> reg[Tok.k][i], n |-> 0, a |-> i])
             [] Tok.o = "r" -> \E i \in Refs : Push([o |-> "obj", i |-> reg[Tok.k][i], n |-> 0, a |-> i])
             [] Tok.o = "v" -> \E i \in {m \in Vars : VarTable[m] = Tok.k} :
                                  Push([o |-> "var", i |-> i, n |-> 0, a |-> i])
             [] Tok.o = "t" -> \E i \in Temps : Push([o |-> "tmp", i |-> i, k |-> Tok.k, n |-> 0, a |-> i])
             [] OTHER -> Push([o |-> Tok.o, i |-> Tok.c, n |-> Tok.n, a |-> 0])

Args == SelectSeq(toks, LAMBDA t : t.o \in {"obj", "var", "tmp"})
ArgNumbers == Force([i \in 1..Len(Args) |-> Args[i].a])
Log(h) == /\ hist' = Append(hist, h)
          /\ stmt' = Idle

Node(k) == [k |-> k, toks |-> toks, size |-> Size(toks, 1), leaves |-> Leaves(toks, 1)]
\* the new object in register d of its kind, obtained in one of several ways
Build == /\ stmt.c = "fill"
         /\ stmt.at > Len(Forms[stmt.f].toks)
         /\ LET k == Forms[stmt.f].k IN
            IF Size(toks, 1) > 30 THEN stmt' = Idle /\ UNCHANGED <<heap, reg, hist>>
            ELSE \E d \in (IF Forms[stmt.f].alone THEN Refs ELSE Proxies \cup Refs) : \E how \in (IF d \in Refs THEN {"ref"} ELSE {"make", "assign", "copy"}) :
                 /\ heap' = Append(heap, Node(k))
                 /\ reg' = [reg EXCEPT ![k][d] = Len(heap) + 1]
                 /\ Log([c |-> "new", f |-> Forms[stmt.f].id, a |-> ArgNumbers, k |-> k, d |-> d, how |-> how,
                         id |-> Len(heap) + 1])
         /\ toks' = <<>>
         /\ UNCHANGED val
\* the expression evaluated where it stands, without a heap object
Direct == /\ stmt.c = "fill"
          /\ stmt.at > Len(Forms[stmt.f].toks)
          /\ Forms[stmt.f].direct
          /\ Size(toks, 1) <= 30
          /\ Log([c |-> "direct", f |-> Forms[stmt.f].id, a |-> ArgNumbers, k |-> Forms[stmt.f].k,
                  see |-> Seen(EvalToks(toks, 1, <<>>)), leaves |-> Leaves(toks, 1)])
          /\ toks' = <<>>
          /\ UNCHANGED <<val, heap, reg>>
Copy == /\ stmt.c = "copy"
        /\ \E k \in Kinds : \E s \in {Proxies, Refs} : \E x \in s : \E y \in s :
           \E how \in (IF s = Proxies THEN {"assign", "move", "swap"} ELSE {"assign"}) :
              /\ reg' = [reg EXCEPT ![k][x] = reg[k][y], ![k][y] = IF how = "swap" THEN reg[k][x] ELSE @]
              /\ Log([c |-> "copy", k |-> k, x |-> x, y |-> y, how |-> how])
        /\ UNCHANGED <<val, heap, toks>>
SetVar == /\ stmt.c = "set"
          /\ \E i \in Vars : \E n \in {1, 4, 6, 7, 11} :
                /\ val' = [val EXCEPT ![i] = PoolValue(VarTable[i], n)]
                /\ Log([c |-> "set", i |-> i, v |-> FlatV(VarTable[i], PoolValue(VarTable[i], n))])
          /\ UNCHANGED <<heap, reg, toks>>
Look == /\ stmt.c = "look"
        /\ \E k \in Kinds : \E i \in Proxies \cup Refs :
              LET id == reg[k][i] IN
              Log([c |-> "look", k |-> k, i |-> i, see |-> Seen(EvalObj(id)), leaves |-> heap[id].leaves])
        /\ UNCHANGED <<val, heap, reg, toks>>

\* at the end, every register is observed
Regs == {<<k, i>> : k \in Kinds, i \in Proxies \cup Refs}
Finish == /\ stmt = Idle
          /\ Len(hist) >= Steps
          /\ stmt' = [c |-> "end"]
          /\ hist' = hist \o <<[c |-> "end", all |-> {[k |-> r[1], i |-> r[2], id |-> reg[r[1]][r[2]],
                                                       see |-> Seen(EvalObj(reg[r[1]][r[2]])),
                                                       leaves |-> heap[reg[r[1]][r[2]]].leaves] : r \in Regs}]>>
          /\ UNCHANGED <<val, heap, reg, toks>>

(* At first, proxies hold temporaries and reference proxies refer to variables *)
KindSeq == <<"R", "T", "V", "P", "S">>
FirstVar(k) == CHOOSE i \in Vars : VarTable[i] = k /\ \A m \in Vars : VarTable[m] = k => i <= m
InitHeap == Force([n \in 1..20 |->
    LET k == KindSeq[1 + ((n - 1) \div 4)]
        i == 1 + ((n - 1) % 4)
    IN IF i \in Proxies THEN [k |-> k, toks |-> <<[o |-> "tmp", i |-> 4 * i, k |-> k, n |-> 0, a |-> 0]>>, size |-> 1, leaves |-> {}]
       ELSE [k |-> k, toks |-> <<[o |-> "var", i |-> FirstVar(k), n |-> 0, a |-> 0]>>, size |-> 1, leaves |-> {FirstVar(k)}]])
InitReg == [k \in Kinds |-> Force([i \in 1..4 |->
              4 * ((CHOOSE m \in 1..5 : KindSeq[m] = k) - 1) + i])]
InitVal == Force([i \in Vars |-> PoolValue(VarTable[i], i)])
Init == /\ val = InitVal /\ heap = InitHeap /\ reg = InitReg
        /\ stmt = Idle /\ toks = <<>> /\ hist = <<>>
Next == Pick \/ PickForm \/ Fill \/ Build \/ Direct \/ Copy \/ SetVar \/ Look \/ Finish
Spec == Init /\ [][Next]_vars

(*------------------------------- properties ------------------------------*)
TypeOK == /\ \A k \in Kinds : \A i \in 1..4 : reg[k][i] \in 1..Len(heap) /\ heap[reg[k][i]].k = k
          /\ Len(hist) <= Steps + 1
\* an object refers only to objects older than itself
Acyclic == \A id \in 1..Len(heap) : \A i \in 1..Len(heap[id].toks) :
              heap[id].toks[i].o = "obj" => heap[id].toks[i].i < id
\* objects never change: neither assignment of proxies nor of other objects affects them
Immutable == [][\A id \in 1..Len(heap) : heap'[id] = heap[id]]_vars
\* the derivative with respect to a variable is zero unless the variable occurs
Occurrence == stmt.c = "look" =>
    \A k \in Kinds : \A r \in 1..4 :
       LET id == reg[k][r]
           e == EvalObj(id)
       IN e.big \/ \A i \in Vars : e.j[i] # <<>> => i \in heap[id].leaves
EmitDone == stmt.c = "end" => PrintT("@" \o ToJson(
    [vars |-> Force([i \in Vars |-> [k |-> VarTable[i], v |-> FlatV(VarTable[i], InitVal[i])]]),
     temps |-> {[k |-> k, n |-> n, v |-> FlatV(k, PoolValue(k, n))] : k \in Kinds, n \in Temps \cup {4, 8}},
     hist |-> hist]))
=============================================================================
