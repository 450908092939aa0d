------------------------------- MODULE ExecMC -------------------------------
(* Every plan of at most N steps that the planning specifications allow, translated and executed: after the commands the robot
   holds exactly what the plan says and stands where the plan ends.  Prints the plans for replay. *)
EXTENDS Carry, Kitchen, Json, IOUtils
C == INSTANCE Commands
PR == ndJsonDeserialize(IOEnv.PARAMS)[1]
Dom == PR.dom   N == PR.n   Variant == PR.variant
CarryW == [v |-> "v", q0 |-> "q0", names |-> [ik |-> "ik", move |-> "m", hold |-> "h"],
           poses |-> [o \in {"o1", "o2"} |-> <<o \o "_1", o \o "_2">>], at0 |-> [o \in {"o1", "o2"} |-> o \o "_1"], goal |-> [o \in {"o1", "o2"} |-> o \o "_2"]]
KitchenW == [q0 |-> "q0", names |-> [free |-> "f", hold |-> "h", insert |-> "i"], confs |-> {"q0", "q1", "q2", "q3"},
             kin |-> {<<"o", "p1", "g", "q1">>, <<"o", "p2", "g", "q2">>, <<"o", "p3", "g", "q3">>}, pre |-> {"q2"}, post |-> {"q3"},
             sup |-> {<<"o", "p3", "sink">>}, stack |-> {<<"o", "sink">>}, sinks |-> {"sink"}, stoves |-> {}, at0 |-> [o \in {"o"} |-> "p1"]]
VARIABLES S, plan
Init == S = (IF Dom = "carry" THEN CStart(CarryW) ELSE KStart(KitchenW)) /\ plan = <<>>
Next == /\ Len(plan) < N
        /\ \E e \in IF Dom = "carry" THEN CEnabled(CarryW, S) ELSE KEnabled(KitchenW, S) :
             /\ S' = IF Dom = "carry" THEN CAfter(CarryW, S, e[1], e[2]) ELSE KAfter(KitchenW, S, e[1], e[2])
             /\ plan' = Append(plan, e)
Spec == Init /\ [][Next]_<<S, plan>>
Steps == [i \in DOMAIN plan |-> IF Dom = "carry" THEN <<plan[i][1], "v", plan[i][2][4], plan[i][2][6]>>
                                ELSE <<plan[i][1], IF plan[i][1] \in {"move_free", "move_holding", "move_insert"} THEN <<plan[i][2][2]>> ELSE <<>>>>]
Cmds == LET s == IF Variant = "late" /\ Len(Steps) > 1 THEN SubSeq(Steps, 2, Len(Steps)) ELSE Steps IN
        IF Dom = "carry" THEN C!CarryCmd(s) ELSE C!KitchenCmd(s)
(* where the robot ends, and what it holds *)
Ends == IF Dom = "carry"
        THEN LET e == [i \in DOMAIN Cmds |-> IF Cmds[i][1] = "go" THEN Cmds[i] ELSE <<Cmds[i][1], Cmds[i][3]>>]
                 g == SelectSeq(e, LAMBDA x : x[1] = "go")
             IN C!Held(e, {}) = (IF S.held = "none" THEN {} ELSE {S.held}) /\ (IF g = <<>> THEN S.conf = "q0" ELSE S.conf = g[Len(g)][2])
        ELSE IF Cmds = <<>> THEN S.conf = "q0" ELSE S.conf = Cmds[Len(Cmds)]
Scenario == Variant = "ok" => PrintT(ToJson([k |-> "S", plan |-> plan]))
=============================================================================
