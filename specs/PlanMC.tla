------------------------------ MODULE PlanMC ------------------------------
(* The two planning worlds as such, for every small world: their states stay sane and the guarantees on histories hold.
   Variants plant mistakes: "two" (picking with a full hand), "fly" (holding motions may end anywhere), "run" (motions may
   follow each other), "raw" (cooking what was never cleaned). *)
EXTENDS Carry, Kitchen, Json, IOUtils
PR == ndJsonDeserialize(IOEnv.PARAMS)[1]
Dom == PR.dom   N == PR.n   Variant == PR.variant
O(i) == "o" \o ToString(i)
P(i, j) == "p" \o ToString(i) \o "_" \o ToString(j)
Os == {O(i) : i \in 1..N}
CarryW == [v |-> "v", q0 |-> "q0", names |-> [ik |-> "ik", move |-> "m", hold |-> "h"],
           poses |-> [o \in Os |-> LET i == CHOOSE i \in 1..N : O(i) = o IN <<P(i, 1), P(i, 2)>>],
           at0 |-> [o \in Os |-> LET i == CHOOSE i \in 1..N : O(i) = o IN P(i, 1)],
           goal |-> [o \in Os |-> LET i == CHOOSE i \in 1..N : O(i) = o IN P(i, 2)]]
Qn(i, j) == "q" \o ToString(i) \o "_" \o ToString(j)
(* pose 1: where the object starts; 2: above the sink; 3: in the sink; 4: on the stove, reached like 2 *)
KitchenW == [q0 |-> "q0", names |-> [free |-> "f", hold |-> "h", insert |-> "i"],
             confs |-> {"q0"} \cup {Qn(i, j) : i \in 1..N, j \in 1..4},
             kin |-> {<<O(i), P(i, j), "g", Qn(i, j)>> : i \in 1..N, j \in 1..4},
             pre |-> {Qn(i, j) : i \in 1..N, j \in {2, 4}}, post |-> {Qn(i, 3) : i \in 1..N},
             sup |-> {<<O(i), P(i, 3), "sink">> : i \in 1..N} \cup {<<O(i), P(i, 4), "stove">> : i \in 1..N},
             stack |-> {<<O(i), r>> : i \in 1..N, r \in {"sink", "stove"}}, sinks |-> {"sink"}, stoves |-> {"stove"},
             at0 |-> [o \in Os |-> LET i == CHOOSE i \in 1..N : O(i) = o IN P(i, 1)]]
VARIABLES S, moves, how, via
vars == <<S, moves, how, via>>
Init == S = (IF Dom = "carry" THEN CStart(CarryW) ELSE KStart(KitchenW)) /\ moves = 0 /\ how = [o \in Os |-> "start"] /\ via = ""
En == IF Dom = "carry" THEN CEnabled(CarryW, IF Variant = "two" THEN [S EXCEPT !.held = "none"] ELSE S)
      ELSE KEnabled(KitchenW, IF Variant = "run" THEN [S EXCEPT !.can = TRUE] ELSE S)
           \cup (IF Variant = "fly" /\ S.can /\ S.grasp # <<>> THEN {<<"move_holding", <<S.conf, q, S.grasp[1], S.grasp[2], "t">>>> : q \in KitchenW.confs} ELSE {})
           \cup (IF Variant = "raw" THEN {<<"cook", x>> : x \in {x \in KitchenW.stack : x[2] = "stove" /\ On(KitchenW, S, x[1], x[2])}} ELSE {})
Next == \E e \in En :
          /\ S' = IF Dom = "carry" THEN CAfter(CarryW, S, e[1], e[2]) ELSE KAfter(KitchenW, S, e[1], e[2])
          /\ moves' = (IF e[1] \in {"move_free", "move_holding", "move_insert"} THEN moves + 1 ELSE IF e[1] \in {"pick", "place"} THEN 0 ELSE moves)
          /\ via' = (IF e[1] \in {"move_free", "move_holding", "move_insert"} THEN e[1] ELSE IF e[1] = "pick" THEN "" ELSE via)
          /\ how' = (IF e[1] = "place" THEN [how EXCEPT ![IF Dom = "carry" THEN e[2][6] ELSE e[2][1]] = via]
                     ELSE IF e[1] = "pick" THEN [how EXCEPT ![IF Dom = "carry" THEN e[2][6] ELSE e[2][1]] = IF @ = "move_insert" THEN "was in" ELSE "out"] ELSE how)
Spec == Init /\ [][Next]_vars
Sane == IF Dom = "carry" THEN CSane(CarryW, S) ELSE KSane(KitchenW, S)
NoRun == moves <= 1
(* an object in the sink was put there by an insertion (or put back where it was picked) *)
Inserted == Dom = "kitchen" => \A i \in 1..N : S.at[O(i)] = P(i, 3) => how[O(i)] \in {"move_insert", "", "was in"}
CookedClean == Dom = "kitchen" => S.cooked \subseteq S.was
CleanedSink == [][Dom = "kitchen" => \A o \in S'.cleaned \ S.cleaned : \E r \in KitchenW.sinks : On(KitchenW, S, o, r)]_vars
NeverGoal == ~(IF Dom = "carry" THEN CGoal(CarryW, S) ELSE KGoal(KitchenW, S))
=============================================================================
