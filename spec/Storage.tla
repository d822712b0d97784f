------------------------------ MODULE Storage ------------------------------
(***************************************************************************)
(* Variables, expressions which refer to them or own temporaries, and      *)
(* assignment.  The state is the value of every variable and, for every    *)
(* expression object, the expression it holds: operations over references  *)
(* to variables and over values captured at construction.                  *)
(*                                                                         *)
(* A behaviour alternates between choosing a statement, deriving its       *)
(* expression (goals, from the root to the leaves), and executing it.      *)
(* Values are exact: rotations are the 24 rotations of the cube (all half  *)
(* turns about its axes among them), vectors have integer coordinates.     *)
(***************************************************************************)
EXTENDS Cube, Json

CONSTANTS Steps,        \* statements in a behaviour
          MaxBudget,    \* operations in an expression
          Rhythm,       \* TRUE: what is built is evaluated after one of its variables changed
          Classes       \* kinds of statement used: build, assign, ctor, part, eval,
                        \* assignslot, copy, set

(*-------------------------------- variables ------------------------------*)
(* kind, representation; m: refers to memory of the harness.  D: a plain   *)
(* number, which expressions refer to in the same way                      *)
VarTable == <<
  [k |-> "R", r |-> "RM", m |-> FALSE], [k |-> "R", r |-> "RQ", m |-> FALSE],
  [k |-> "R", r |-> "RA", m |-> FALSE], [k |-> "R", r |-> "RMm", m |-> TRUE],
  [k |-> "R", r |-> "RQm", m |-> TRUE], [k |-> "R", r |-> "RMb", m |-> TRUE],
  [k |-> "T", r |-> "TM", m |-> FALSE], [k |-> "T", r |-> "TQ", m |-> FALSE],
  [k |-> "T", r |-> "TMm", m |-> TRUE],
  [k |-> "V", r |-> "V", m |-> FALSE], [k |-> "V", r |-> "Vm", m |-> TRUE],
  [k |-> "P", r |-> "P", m |-> FALSE], [k |-> "P", r |-> "Pm", m |-> TRUE],
  [k |-> "W", r |-> "W", m |-> FALSE], [k |-> "W", r |-> "Wm", m |-> TRUE],
  [k |-> "X", r |-> "X", m |-> FALSE], [k |-> "X", r |-> "Xm", m |-> TRUE],
  [k |-> "S", r |-> "S", m |-> FALSE], [k |-> "S", r |-> "S", m |-> FALSE],
  [k |-> "D", r |-> "D", m |-> FALSE], [k |-> "D", r |-> "D", m |-> FALSE] >>
NV == Len(VarTable)
Vars == 1..NV
Kind(i) == VarTable[i].k
OfKind(k) == {i \in Vars : Kind(i) = k}
Slots == 1..3
Kinds == {"R", "T", "V", "P", "W", "X", "S"}

\* the ways to obtain kind k: <<operation, kinds of the operands>>
Ways(k) ==
    CASE k \in {"R", "T"} -> {<<"comp", <<k, k>>>>, <<"inv", <<k>>>>}
                             \cup (IF k = "R" THEN {<<"rotof", <<"T">>>>} ELSE {})
      [] k \in {"V", "W", "X"} ->
           {<<"add", <<k, k>>>>, <<"sub", <<k, k>>>>, <<"neg", <<k>>>>, <<"kmul", <<k>>>>,
            <<"mulk", <<k>>>>, <<"scale", <<"S", k>>>>, <<"scaler", <<k, "S">>>>, <<"scale", <<"D", k>>>>,
            <<"scaler", <<k, "D">>>>, <<"div", <<k, "D">>>>}
           \cup (IF k = "V" THEN {<<"rot", <<"R", "V">>>>, <<"trf", <<"T", "V">>>>, <<"transof", <<"T">>>>,
                                  <<"sub", <<"P", "P">>>>}
                 ELSE {})
      [] k = "D" -> {}
      [] k = "P" -> {<<"add", <<"P", "V">>>>, <<"add", <<"V", "P">>>>, <<"sub", <<"P", "V">>>>}
      [] k = "S" -> {<<"dot", <<"V", "V">>>>, <<"sqn", <<"V">>>>, <<"sqn", <<"X">>>>, <<"add", <<"S", "S">>>>,
                     <<"kmul", <<"S">>>>, <<"neg", <<"S">>>>}
                    \cup {<<o, w>> : o \in {"add", "sub", "scale", "div"}, w \in {<<"S", "D">>, <<"D", "S">>}}

(*---------------------------------- state --------------------------------*)
VARIABLES val,      \* value of each variable
          ok,       \* FALSE: moved from, not specified
          slot,     \* expression objects: [k, toks, on], toks in postfix order, on: slots referred to
          stmt,     \* the statement being derived
          goals,    \* open goals: [k] or an operation to append
          out,      \* postfix tokens so far
          code,     \* the same, as written in the program
          budget, hist
vars == <<val, ok, slot, stmt, goals, out, code, budget, hist>>

NoSlot == [k |-> "-", toks |-> <<>>, on |-> {}]
NoStmt == [c |-> "-"]

(* Meaning of postfix tokens in the current state *)
Num(e) == IF e.k = "D" THEN [e EXCEPT !.k = "S"] ELSE e
NotExact == [k |-> "S", v |-> <<1000000>>]
RECURSIVE EvalFrom(_, _, _)
EvalFrom(toks, i, st) ==
    IF i > Len(toks) THEN st[1]
    ELSE LET t == toks[i]
             n == Len(st)
         IN IF t.n = 2 /\ ~Divides(t.o, st[n - 1], st[n]) THEN NotExact
            ELSE EvalFrom(toks, i + 1,
              CASE t.o = "ref" -> Append(st, [k |-> Kind(t.i), v |-> val[t.i]])
                [] t.o = "val" -> Append(st, [k |-> t.k, v |-> t.v])
                [] t.n = 1 -> SubSeq(st, 1, n - 1) \o <<Apply1(t.o, t.i, st[n])>>
                [] t.n = 2 -> SubSeq(st, 1, n - 2) \o <<Apply2(t.o, Num(st[n - 1]), Num(st[n]))>>)
Eval(toks) == EvalFrom(toks, 1, <<>>)

Refs(toks) == {toks[i].i : i \in {j \in 1..Len(toks) : toks[j].o = "ref"}}
Readable(toks) == \A i \in Refs(toks) : ok[i]
SmallV(v) == \A i \in 1..Len(v) : v[i] < 100000 /\ v[i] > -100000
Small(e) == CASE e.k = "R" -> TRUE [] e.k = "T" -> SmallV(e.v.t) [] OTHER -> SmallV(e.v)

LiveRefs == UNION {Refs(slot[s].toks) : s \in Slots}
UsedSlots == {s \in Slots : slot[s].k # "-"}
ReferredSlots == UNION {slot[s].on : s \in Slots}
SlotsOfCode == {code[i].i : i \in {j \in 1..Len(code) : code[j].o = "slotref"}}

Idle == stmt.c = "-"
\* the statement due, when following the rhythm
Last(n) == hist[Len(hist) - n]
Beat == IF ~Rhythm \/ hist = <<>> THEN "any"
        ELSE IF Last(0).c = "build" /\ Refs(slot[Last(0).s].toks) # {} THEN "set"
        ELSE IF Len(hist) > 1 /\ Last(0).c = "set" /\ Last(1).c = "build" /\ slot[Last(1).s].k # "-"
                /\ Readable(slot[Last(1).s].toks) /\ Small(Eval(slot[Last(1).s].toks)) THEN "eval"
        ELSE "any"
Picked(c) == stmt.c = "pick" /\ stmt.p = c
G(k) == [g |-> "goal", k |-> k]

(*------------------------- choosing a statement --------------------------*)
Begin(s, k) == /\ stmt' = s
               /\ goals' = <<G(k)>>
               /\ out' = <<>> /\ code' = <<>>
               /\ budget' \in (IF s.c = "build" THEN 1..MaxBudget ELSE 0..MaxBudget)
               /\ UNCHANGED <<val, ok, slot, hist>>

Stop == Len(hist) >= Steps

ChooseBuild == /\ Picked("build")
               /\ \E s \in Slots \ ReferredSlots : \E k \in Kinds : Begin([c |-> "build", s |-> s], k)
\* a variable := expression
ChooseAssign == /\ Picked("assign")
                /\ \E i \in Vars \ OfKind("D") : Begin([c |-> "assign", i |-> i], Kind(i))
\* a variable := object of its type constructed from an expression
ChooseCtor == /\ Picked("ctor")
              /\ \E i \in {j \in Vars \ OfKind("D") : ~VarTable[j].m} : Begin([c |-> "ctor", i |-> i], Kind(i))
\* part of a variable := expression
ChoosePart == /\ Picked("part")
              /\ \E i \in OfKind("T") \cup OfKind("X") : \E p \in {"rot", "trans"} :
                    /\ ok[i]
                    /\ Begin([c |-> "part", i |-> i, p |-> p],
                          IF p = "trans" THEN "V" ELSE IF Kind(i) = "T" THEN "R" ELSE "W")

(*----------------------- deriving the expression -------------------------*)
Deriving == ~Idle /\ stmt.c \notin {"pick", "end"} /\ goals # <<>>
Cur == Head(goals)
Emit1(o, c) == /\ out' = Append(out, o)
               /\ code' = Append(code, c)
Tk(o, i, n) == [o |-> o, i |-> i, n |-> n]

Expand == /\ Deriving /\ Cur.g = "goal" /\ budget > 0
          /\ \E w \in Ways(Cur.k) :
             \E c \in (IF w[1] \in {"kmul", "mulk"} THEN 1..Len(Consts) ELSE {0}) :
             \E nm \in {"", "", "named", "moved"} :
               goals' = (Force([j \in 1..Len(w[2]) |-> G(w[2][j])])
                         \o <<[g |-> "op", o |-> w[1], i |-> c, n |-> Len(w[2]), nm |-> nm]>>) \o Tail(goals)
          /\ budget' = budget - 1
          /\ UNCHANGED <<val, ok, slot, stmt, out, code, hist>>

AppendOp == /\ Deriving /\ Cur.g = "op"
            /\ Emit1(Tk(Cur.o, Cur.i, Cur.n),
                     [o |-> Cur.o, i |-> Cur.i, n |-> Cur.n,
                      nm |-> IF goals = <<Cur>> THEN "" ELSE Cur.nm])
            /\ goals' = Tail(goals)
            /\ UNCHANGED <<val, ok, slot, stmt, budget, hist>>

Leaf(o, c) == /\ Emit1(o, c)
              /\ goals' = Tail(goals)
              /\ UNCHANGED <<val, ok, slot, stmt, budget, hist>>
CL(o, i) == [o |-> o, i |-> i, n |-> 0, nm |-> ""]
MayStop == Deriving /\ Cur.g = "goal" /\ (budget = 0 \/ Len(goals) > 1 \/ stmt.c # "build")

UseVar == /\ MayStop
          /\ \E i \in OfKind(Cur.k) : ok[i] /\ Leaf(Tk("ref", i, 0), CL("ref", i))
\* a temporary copy; the copy of a variable which refers to memory refers to the same memory
UseCopy == /\ MayStop
           /\ \E i \in OfKind(Cur.k) :
                 /\ ok[i]
                 /\ Leaf(IF VarTable[i].m THEN Tk("ref", i, 0)
                         ELSE [o |-> "val", k |-> Kind(i), v |-> val[i], n |-> 0, i |-> 0],
                         CL("copy", i))
\* a new temporary
UseTemp == /\ MayStop
           /\ \E n \in {1 + ((5 * Len(hist) + 3 * Len(out)) % 12)} :
                 LET v == PoolValue(Cur.k, n) IN
                 \E i \in {j \in OfKind(Cur.k) : ~VarTable[j].m} :
                    Leaf([o |-> "val", k |-> Cur.k, v |-> v, n |-> 0, i |-> 0],
                         [o |-> "temp", i |-> i, n |-> 0, nm |-> "", v |-> v])
\* a variable which is moved from, and specified again only after an assignment
Moved == {code[i].i : i \in {j \in 1..Len(code) : code[j].o = "move"}}
UseMove == /\ MayStop
           /\ stmt.c = "build"
           /\ \E i \in OfKind(Cur.k) \ (LiveRefs \cup Refs(out) \cup Moved) :
                 /\ ok[i] /\ ~VarTable[i].m
                 /\ Leaf([o |-> "val", k |-> Kind(i), v |-> val[i], n |-> 0, i |-> 0], CL("move", i))
\* another expression object: referred to, copied or moved
UseSlot == /\ MayStop
           /\ \E s \in UsedSlots : \E how \in {"slotref", "slotcopy", "slotmove"} :
                 /\ slot[s].k = Cur.k
                 /\ Readable(slot[s].toks)
                 /\ Len(slot[s].toks) < 8
                 /\ ~(stmt.c = "build" /\ stmt.s = s)
                 /\ s \notin {code[i].i : i \in {j \in 1..Len(code) : code[j].o \in {"slotref", "slotcopy", "slotmove"}}}
                 /\ how = "slotmove" => s \notin ReferredSlots
                 /\ out' = out \o slot[s].toks
                 /\ code' = Append(code, CL(how, s))
                 /\ goals' = Tail(goals)
                 /\ UNCHANGED <<val, ok, slot, stmt, budget, hist>>
\* parts of a twist variable are views of it
UsePart == /\ MayStop
           /\ Cur.k \in {"V", "W"}
           /\ \E i \in OfKind("X") :
                 /\ ok[i]
                 /\ out' = out \o <<Tk("ref", i, 0), Tk(IF Cur.k = "W" THEN "rotx" ELSE "transx", 0, 1)>>
                 /\ code' = Append(code, CL(IF Cur.k = "W" THEN "rotx" ELSE "transx", i))
                 /\ goals' = Tail(goals)
                 /\ UNCHANGED <<val, ok, slot, stmt, budget, hist>>

(*------------------------------- executing -------------------------------*)
Derived == ~Idle /\ stmt.c \notin {"pick", "end"} /\ goals = <<>>
Conflict == Moved \cap Refs(out) # {}      \* reads what it moves from
\* the effect of the statement on the variables, for the comparison:
\* values which change, and variables which are no longer specified
Effect(nval, nok) == [set |-> {<<i, nval[i]>> : i \in {j \in Vars : nok[j] /\ (nval[j] # val[j] \/ ~ok[j])}},
                      lost |-> {i \in Vars : ~nok[i]}]
Done(h, nval, nok) ==
    /\ hist' = Append(hist, h @@ Effect(nval, nok))
    /\ stmt' = NoStmt /\ out' = <<>> /\ code' = <<>>
    /\ UNCHANGED <<goals, budget>>
SlotsMoved == {code[i].i : i \in {j \in 1..Len(code) : code[j].o = "slotmove"}}
Freed == Force([s \in Slots |-> IF s \in SlotsMoved THEN NoSlot ELSE slot[s]])
OnOf == SlotsOfCode \cup UNION {slot[s].on : s \in {code[i].i : i \in
            {j \in 1..Len(code) : code[j].o \in {"slotmove", "slotcopy"}}}}

Abandon == /\ Derived
           /\ Conflict \/ ~Small(Eval(out)) \/ (stmt.c = "build" /\ stmt.s \in OnOf)
           /\ stmt' = NoStmt /\ out' = <<>> /\ code' = <<>>
           /\ UNCHANGED <<val, ok, slot, goals, budget, hist>>
Good == Derived /\ ~Conflict /\ Small(Eval(out))

Build == /\ Good /\ stmt.c = "build" /\ stmt.s \notin OnOf
         /\ LET e == Eval(out)
                nok == Force([i \in Vars |-> ok[i] /\ i \notin Moved])
            IN /\ slot' = [Freed EXCEPT ![stmt.s] = [k |-> e.k, toks |-> out, on |-> OnOf]]
               /\ ok' = nok
               /\ Done([c |-> "build", s |-> stmt.s, code |-> code, k |-> e.k], val, nok)
         /\ UNCHANGED val
Assign == /\ Good /\ stmt.c \in {"assign", "ctor"}
          /\ LET e == Eval(out)
                 nval == [val EXCEPT ![stmt.i] = e.v]
                 nok == [ok EXCEPT ![stmt.i] = TRUE]
             IN /\ val' = nval /\ ok' = nok
                /\ Done([c |-> stmt.c, i |-> stmt.i, code |-> code, k |-> e.k], nval, nok)
          /\ slot' = Freed
Part == /\ Good /\ stmt.c = "part"
        /\ LET e == Eval(out)
               old == val[stmt.i]
               new == IF Kind(stmt.i) = "T"
                      THEN (IF stmt.p = "rot" THEN [old EXCEPT !.R = e.v] ELSE [old EXCEPT !.t = e.v])
                      ELSE (IF stmt.p = "rot" THEN e.v \o SubSeq(old, 4, 6) ELSE SubSeq(old, 1, 3) \o e.v)
               nval == [val EXCEPT ![stmt.i] = new]
           IN /\ val' = nval
              /\ Done([c |-> "part", i |-> stmt.i, p |-> stmt.p, code |-> code, k |-> e.k], nval, ok)
        /\ slot' = Freed
        /\ UNCHANGED ok

(*--------------------- statements without expression ---------------------*)
Plain(h, nval, nok, nslot) ==
    /\ val' = nval /\ ok' = nok /\ slot' = nslot
    /\ hist' = Append(hist, h @@ Effect(nval, nok))
    /\ stmt' = NoStmt
    /\ UNCHANGED <<goals, out, code, budget>>

\* evaluate an expression object
EvalSlot == Picked("eval") /\ \E s \in (IF Beat = "eval" THEN {Last(1).s} ELSE UsedSlots) :
    /\ Readable(slot[s].toks)
    /\ LET e == Eval(slot[s].toks)
       IN /\ Small(e)
          /\ Plain([c |-> "eval", s |-> s, k |-> e.k, v |-> e.v], val, ok, slot)
\* assign an expression object to a variable
AssignSlot == /\ Picked("assignslot")
              /\ \E s \in UsedSlots :
                  /\ Readable(slot[s].toks)
                  /\ LET e == Eval(slot[s].toks) IN
                     /\ Small(e)
                     /\ \E i \in OfKind(e.k) :
                        Plain([c |-> "assignslot", i |-> i, s |-> s], [val EXCEPT ![i] = e.v],
                              [ok EXCEPT ![i] = TRUE], slot)
\* copy or move an expression object; the source of a move is destroyed
CopySlot == Picked("copy") /\ \E s \in UsedSlots : \E d \in Slots \ (ReferredSlots \cup {s}) : \E how \in {"copy", "move"} :
    /\ how = "move" => s \notin ReferredSlots
    /\ d \notin slot[s].on
    /\ Plain([c |-> how, s |-> s, d |-> d], val, ok,
             [slot EXCEPT ![d] = slot[s], ![s] = IF how = "copy" THEN @ ELSE NoSlot])
\* give a variable a new value; mapped variables also through the memory they refer to
\* (half of the time one which an expression object refers to)
Mutate == Picked("set") /\ \E i \in (IF Beat = "set" THEN Refs(slot[Last(0).s].toks)
                                     ELSE IF Len(hist) % 2 = 0 \/ LiveRefs = {} THEN Vars ELSE LiveRefs) : \E n \in {2, 5, 7, 9} : \E how \in {"assign", "memory"} :
    /\ how = "memory" => VarTable[i].m
    /\ Plain([c |-> "set", i |-> i, how |-> how, v |-> PoolValue(Kind(i), n)],
             [val EXCEPT ![i] = PoolValue(Kind(i), n)], [ok EXCEPT ![i] = TRUE], slot)

\* a behaviour chooses the kind of statement first
Pick == /\ Idle /\ ~Stop
        /\ \E c \in Classes :
              /\ Beat # "any" => c = Beat
              /\ c \in {"eval", "copy", "assignslot"} => UsedSlots # {}
              /\ stmt' = [c |-> "pick", p |-> c]
        /\ UNCHANGED <<val, ok, slot, goals, out, code, budget, hist>>
Unpick == /\ stmt.c = "pick"
          /\ stmt' = NoStmt
          /\ UNCHANGED <<val, ok, slot, goals, out, code, budget, hist>>

InitVal == Force([i \in Vars |-> PoolValue(Kind(i), i)])
Init == /\ val = InitVal
        /\ ok = Force([i \in Vars |-> TRUE])
        /\ slot = Force([s \in Slots |-> NoSlot])
        /\ stmt = NoStmt /\ goals = <<>> /\ out = <<>> /\ code = <<>> /\ budget = 0
        /\ hist = <<>>

Finish == /\ Idle /\ Stop
          /\ stmt' = [c |-> "end"]
          /\ UNCHANGED <<val, ok, slot, goals, out, code, budget, hist>>

Next == \/ Finish \/ Pick \/ Unpick
        \/ ChooseBuild \/ ChooseAssign \/ ChooseCtor \/ ChoosePart
        \/ EvalSlot \/ AssignSlot \/ CopySlot \/ Mutate
        \/ Expand \/ AppendOp \/ UseVar \/ UseVar \/ UseVar \/ UseCopy \/ UseTemp \/ UseMove \/ UseSlot \/ UsePart
        \/ Build \/ Assign \/ Part \/ Abandon

(*------------------------------- properties ------------------------------*)
\* an expression never refers to an expression object which has ended
NoDangling == \A s \in Slots : \A d \in slot[s].on : slot[d].k # "-"
\* evaluation leaves every variable as it was
TypeOK == \A i \in Vars : ok[i] \in BOOLEAN
EmitDone == stmt.c = "end" => PrintT("@" \o ToJson([vars |-> VarTable, init |-> InitVal, hist |-> hist]))
=============================================================================
