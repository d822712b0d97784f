-------------------------------- MODULE Gen --------------------------------
(***************************************************************************)
(* All well-formed expressions with reference frames, as behaviours: a     *)
(* derivation starts from one goal (kind and frames of the result) and     *)
(* replaces the first open goal by an operation, whose operands become new *)
(* goals, or by a variable (new or used before) or a constant.             *)
(*                                                                         *)
(* The frame rules are those of the library: <<left, right>> for           *)
(* rotations, transforms and points; <<left, middle, right>> for vectors;  *)
(* none for scalars.                                                       *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Frames,        \* names of reference frames
          MaxBudget,     \* largest number of operations
          RootKinds,     \* kinds of the root
          Ops            \* operations used

VARIABLES goals,     \* open goals, first is next: [k, f]
          out,       \* tokens in prefix order
          leaves,    \* variables: [k, f]
          budget     \* remaining operations

vars == <<goals, out, leaves, budget>>

FramesOf(k) == CASE k \in {"R", "T", "P"} -> Frames \X Frames
                 [] k \in {"V", "W", "X"} -> Frames \X Frames \X Frames
                 [] k = "S" -> {<<>>}

G(k, f) == [k |-> k, f |-> f]
Vec == {"V", "W", "X"}
TanOf(k) == IF k = "R" THEN "W" ELSE "X"
GroupOf(k) == IF k = "W" THEN "R" ELSE "T"

(* The set of <<operation, operand goals>> that produce kind k with frames f *)
AllProductions(k, f) ==
    CASE k \in {"R", "T"} ->
           LET l == f[1]
               r == f[2]
           IN {<<"comp", <<G(k, <<l, m>>), G(k, <<m, r>>)>>>> : m \in Frames}
              \cup {<<"inv", <<G(k, <<r, l>>)>>>>}
              \cup {<<"bplus", <<G(k, <<l, r>>), G(TanOf(k), <<l, l, r>>)>>>>}
              \cup (IF l = r THEN {<<"exp", <<G(TanOf(k), <<l, m, q>>)>>>> : m \in Frames, q \in Frames}
                    ELSE {})
              \cup (IF k = "R" THEN {<<"rotof", <<G("T", <<l, r>>)>>>>} ELSE {})
      [] k \in Vec ->
           LET l == f[1]
               m == f[2]
               r == f[3]
           IN {<<"add", <<G(k, <<l, m, q>>), G(k, <<l, q, r>>)>>>> : q \in Frames}
              \cup (IF m # r THEN {<<"add", <<G(k, <<l, q, r>>), G(k, <<l, m, q>>)>>>> : q \in Frames}
                    ELSE {})
              \cup {<<"sub", <<G(k, <<l, m, q>>), G(k, <<l, r, q>>)>>>> : q \in Frames}
              \cup (IF m # r THEN {<<"sub", <<G(k, <<l, q, r>>), G(k, <<l, q, m>>)>>>> : q \in Frames}
                    ELSE {})
              \cup {<<"neg", <<G(k, <<l, r, m>>)>>>>, <<"nrm", <<G(k, f)>>>>,
                    <<"scale", <<G("S", <<>>), G(k, f)>>>>, <<"scaler", <<G(k, f), G("S", <<>>)>>>>,
                    <<"sdiv", <<G(k, f), G("S", <<>>)>>>>,
                    <<"kmul", <<G(k, f)>>>>, <<"mulk", <<G(k, f)>>>>, <<"divk", <<G(k, f)>>>>}
              \cup (IF k # "V" THEN {}
                    ELSE {<<"rot", <<G("R", <<l, q>>), G("V", <<q, m, r>>)>>>> : q \in Frames}
                         \cup (IF l # m THEN {}
                               ELSE {<<"trf", <<G("T", <<l, q>>), G("V", <<q, q, r>>)>>>> : q \in Frames}
                                    \cup {<<"transof", <<G("T", <<l, r>>)>>>>})
                         \cup (IF m # r \/ l = m   \* points of equal frames give <<l, l, l>>
                               THEN {<<"sub", <<G("P", <<l, r>>), G("P", <<l, m>>)>>>>} ELSE {})
                         \cup (IF l = m /\ m = r
                               THEN {<<"sub", <<G("P", <<l, q>>), G("P", <<l, q>>)>>>> : q \in Frames}
                               ELSE {}))
              \cup (IF k = "V" \/ l # m THEN {}
                    ELSE {<<"bminus", <<G(GroupOf(k), <<l, r>>), G(GroupOf(k), <<l, r>>)>>>>,
                          <<"log", <<G(GroupOf(k), <<l, r>>)>>>>}
                         \cup {<<"logf", <<G(GroupOf(k), <<l, q>>)>>>> : q \in Frames \ {r}})
      [] k = "P" ->   \* a point <<l, r>> is like a vector <<l, l, r>>
           LET l == f[1]
               r == f[2]
           IN {<<"add", <<G("P", <<l, q>>), G("V", <<l, q, r>>)>>>> : q \in Frames}
              \cup {<<"add", <<G("V", <<l, q, r>>), G("P", <<l, q>>)>>>> :
                        q \in {x \in Frames : r # l \/ x = l}}
              \cup {<<"sub", <<G("P", <<l, q>>), G("V", <<l, r, q>>)>>>> : q \in Frames}
      [] k = "S" ->
           {<<"norm", <<G(v, <<a, b, c>>)>>>> : v \in Vec, a \in Frames, b \in Frames, c \in Frames}
           \cup {<<"sqn", <<G(v, <<a, b, c>>)>>>> : v \in Vec, a \in Frames, b \in Frames, c \in Frames}
           \cup {<<"dot", <<G(v, <<a, b, c>>), G(v, <<a, b, c>>)>>>> :
                     v \in Vec, a \in Frames, b \in Frames, c \in Frames}
           \cup {<<op, <<G("S", <<>>), G("S", <<>>)>>>> : op \in {"prod", "div", "add", "sub"}}
           \cup {<<op, <<G("S", <<>>)>>>> :
                     op \in {"neg", "acos", "kmul", "mulk", "divk", "kdiv", "kadd", "addk", "ksub", "subk"}}

Productions(k, f) == {pr \in AllProductions(k, f) : pr[1] \in Ops}

Head1 == Head(goals)

Expand == /\ goals # <<>> /\ budget > 0
          /\ \E pr \in Productions(Head1.k, Head1.f) :
               /\ goals' = pr[2] \o Tail(goals)
               /\ out' = Append(out, [o |-> pr[1], k |-> Head1.k, f |-> Head1.f, i |-> 0, n |-> Len(pr[2])])
               /\ budget' = budget - 1
               /\ UNCHANGED leaves

\* with budget left, stop here only at a goal which is not the only one
MayStop == goals # <<>> /\ (budget = 0 \/ Len(goals) > 1 \/ Productions(Head1.k, Head1.f) = {})

NewVar == /\ MayStop
          /\ leaves' = Append(leaves, Head1)
          /\ out' = Append(out, [o |-> "leaf", k |-> Head1.k, f |-> Head1.f, i |-> Len(leaves) + 1, n |-> 0])
          /\ goals' = Tail(goals)
          /\ UNCHANGED budget

OldVar == /\ MayStop
          /\ \E i \in 1..Len(leaves) :
               /\ leaves[i].k = Head1.k /\ leaves[i].f = Head1.f
               /\ out' = Append(out, [o |-> "leaf", k |-> Head1.k, f |-> Head1.f, i |-> i, n |-> 0])
          /\ goals' = Tail(goals)
          /\ UNCHANGED <<leaves, budget>>

(* The symbolic identity or zero *)
Constant == /\ MayStop
            /\ "const" \in Ops
            /\ Head1.k \in {"R", "T", "V", "W", "X", "P"}
            /\ out' = Append(out, [o |-> "const", k |-> Head1.k, f |-> Head1.f, i |-> 0, n |-> 0])
            /\ goals' = Tail(goals)
            /\ UNCHANGED <<leaves, budget>>

Init == /\ budget \in 1..MaxBudget
        /\ \E k \in RootKinds : \E f \in FramesOf(k) : goals = <<G(k, f)>>
        /\ out = <<>>
        /\ leaves = <<>>

Next == Expand \/ NewVar \/ OldVar \/ Constant

Done == goals = <<>>
Emit == Done => PrintT("@" \o ToJson([toks |-> out, leaves |-> leaves]))
=============================================================================
