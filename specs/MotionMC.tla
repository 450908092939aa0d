------------------------------ MODULE MotionMC ------------------------------
(* Motion streams called one after the other in a simulator somebody else also moves.  Whatever came before, the planner is asked
   from the stated start, with the stated objects where they are stated to be.  Variants: "noconf" (the robot is left where it is),
   "late" (objects are placed after the planner was asked), "stay" (obstacles are listed but not placed), "forget" (fluent objects
   are no obstacles), "back" (placed, but the robot is then put at the goal), "nohold" (the carried object is left out). *)
EXTENDS Motion, Json, IOUtils
PR == ndJsonDeserialize(IOEnv.PARAMS)[1]
Variant == PR.variant   MaxCalls == PR.calls
Confs == 1..2   Objs == {"a", "b"}   Poses == 1..2   Fixed == <<"f">>
VARIABLES conf, at, pc, call, req, hist
vars == <<conf, at, pc, call, req, hist>>
Fl == {<<>>, <<<<"a", 1>>>>, <<<<"b", 2>>>>, <<<<"a", 2>>, <<"b", 1>>>>}
Calls == {[kind |-> k, c1 |-> q, c2 |-> r, held |-> h, fl |-> f, bad |-> b, teleport |-> t, coll |-> TRUE] :
            k \in {"arm", "rover"}, q \in Confs, r \in Confs, h \in {"", "b"}, f \in Fl, b \in BOOLEAN, t \in BOOLEAN}
Sane(c) == c.held \notin Objects(c) /\ (c.bad => c.held = "" /\ ~c.teleport) /\ (c.teleport => c.fl = <<>>)
None == [to |-> 0, obs |-> {}, att |-> {}]
Nil == [kind |-> "", c1 |-> 0, c2 |-> 0, held |-> "", fl |-> <<>>, bad |-> FALSE, teleport |-> FALSE, coll |-> TRUE]
Init == conf = 1 /\ at = [o \in Objs |-> 0] /\ pc = "idle" /\ call = Nil /\ req = None /\ hist = <<>>
Begin == /\ pc = "idle" /\ Len(hist) < MaxCalls /\ \E c \in Calls : Sane(c) /\ call' = c
         /\ pc' = "assign" /\ UNCHANGED <<conf, at, req, hist>>
Assign == /\ pc = "assign"
          /\ conf' = IF call.teleport \/ Variant = "noconf" THEN conf ELSE call.c1
          /\ pc' = IF call.teleport THEN "answer" ELSE IF Variant = "late" THEN "plan" ELSE "place"
          /\ UNCHANGED <<at, call, req, hist>>
Place == /\ pc = "place"
         /\ at' = [o \in Objs |-> IF Variant # "stay" /\ \E f \in Rng(call.fl) : f[1] = o THEN (CHOOSE f \in Rng(call.fl) : f[1] = o)[2] ELSE at[o]]
         /\ conf' = IF Variant = "back" THEN call.c2 ELSE conf
         /\ pc' = IF call.bad THEN "refuse" ELSE IF Variant = "late" /\ req # None THEN "answer" ELSE "plan"
         /\ UNCHANGED <<call, req, hist>>
Plan == /\ pc = "plan"
        /\ req' = [to |-> call.c2, obs |-> IF Variant = "forget" THEN Rng(Fixed) ELSE Obstacles(call, Fixed), att |-> IF Variant = "nohold" THEN {} ELSE Carried(call)]
        /\ pc' = "asked" /\ UNCHANGED <<conf, at, call, hist>>
Asked == pc = "asked" /\ pc' = (IF Variant = "late" THEN "place" ELSE "answer") /\ UNCHANGED <<conf, at, call, req, hist>>
(* the planner's search leaves the robot anywhere *)
Done == /\ pc \in {"answer", "refuse"} /\ \E out \in {"path", "none"} : (call.teleport => out = "path") /\ hist' = Append(hist, [call |-> call, out |-> IF pc = "refuse" THEN "refuse" ELSE out])
        /\ \E q \in Confs : conf' = q
        /\ pc' = "idle" /\ call' = Nil /\ req' = None /\ UNCHANGED at
(* somebody else moves the robot or an object *)
Disturb == pc = "idle" /\ (\E q \in Confs : conf' = q) /\ (\E o \in Objs, p \in Poses : at' = [at EXCEPT ![o] = p]) /\ UNCHANGED <<pc, call, req, hist>>
Next == Begin \/ Assign \/ Place \/ Plan \/ Asked \/ Done \/ Disturb
Spec == Init /\ [][Next]_vars
World == [conf |-> conf, at |-> at]
Asking == pc = "asked" => RequestOK(call, World, req, Fixed) /\ Asks(call)
NeverAsked == pc = "refuse" => req = None
Scenario == (pc = "idle" /\ Len(hist) = MaxCalls) => PrintT(ToJson([k |-> "S", h |-> hist]))
(* the history does not matter for the invariants *)
View == <<conf, at, pc, call, req, Len(hist)>>
=============================================================================
