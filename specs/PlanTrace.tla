------------------------------ MODULE PlanTrace ------------------------------
(* The planning files and the generated planning problem, explored together with the specification: in every state reachable by
   either, exactly the same actions must be possible, and the goal must hold in the same states. *)
EXTENDS Carry, Kitchen, Json, IOUtils
PD == INSTANCE Pddl
Traces == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES tid, F, S, st
vars == <<tid, F, S, st>>
Tr == Traces[tid]
Rg(s) == {s[i] : i \in DOMAIN s}
(* records of lists from the harness to sets *)
ToWorld(dom, w) == IF dom = "carry" THEN w
            ELSE [w EXCEPT !.confs = Rg(@), !.kin = Rg(@), !.pre = Rg(@), !.post = Rg(@), !.sup = Rg(@), !.stack = Rg(@), !.sinks = Rg(@), !.stoves = Rg(@)]
Worlds == [t \in DOMAIN Traces |-> ToWorld(Traces[t].dom, Traces[t].world)]
(* facts no action ever changes are kept out of the state *)
Fluent(D) == UNION {{D.actions[a].add[i][1] : i \in DOMAIN D.actions[a].add} \cup {D.actions[a].del[i][1] : i \in DOMAIN D.actions[a].del} : a \in DOMAIN D.actions}
All0(t) == PD!Closure(Rg(Traces[t].init), Traces[t].streams)
Base == [t \in DOMAIN Traces |-> All0(t)]
Static == [t \in DOMAIN Traces |-> PD!Index({f \in Base[t] : f[1] \notin Fluent(Traces[t])})]
Full == LET G == PD!Index(F) @@ Static[tid] IN PD!Index(PD!Derived(G, Tr.derived)) @@ G
Got == LET G == Full IN UNION {{<<Tr.actions[a].name, args>> : args \in PD!Instances(Tr.actions[a], G)} : a \in DOMAIN Tr.actions}
Want == IF Tr.dom = "carry" THEN CEnabled(Worlds[tid], S) ELSE KEnabled(Worlds[tid], S)
GoalGot == PD!Holds(Tr.goal, Full)
GoalWant == IF Tr.dom = "carry" THEN CGoal(Worlds[tid], S) ELSE KGoal(Worlds[tid], S)
Say(c, d) == PrintT(ToJson([k |-> "V", t |-> tid, l |-> 0, c |-> c, d |-> d]))
Act(n) == Tr.actions[CHOOSE a \in DOMAIN Tr.actions : Tr.actions[a].name = n]
Init == /\ tid \in DOMAIN Traces /\ st = "init"
        /\ F = {} /\ S = [conf |-> ""]
Begin == /\ st = "init" /\ UNCHANGED tid
         /\ F' = {f \in Base[tid] : f[1] \in Fluent(Tr)}
         /\ S' = IF Tr.dom = "carry" THEN CStart(Worlds[tid]) ELSE KStart(Worlds[tid])
         /\ st' = "on"
         /\ IF Len(Tr.bad) > 0 THEN Say(Tr.bad, <<>>) ELSE TRUE
         /\ PrintT(ToJson([k |-> "D", t |-> tid, facts |-> Cardinality(Base[tid])]))
Go == /\ st = "on"
      /\ LET got == Got  want == Want IN
         IF got # want
         THEN /\ Say(IF got \ want # {} THEN "an action is possible that must not be" ELSE "an action is impossible that must be possible",
                     [extra |-> {IF Cardinality(got \ want) > 0 THEN CHOOSE x \in got \ want : TRUE ELSE <<>>}, missing |-> {IF want \ got # {} THEN CHOOSE x \in want \ got : TRUE ELSE <<>>}])
              /\ st' = "stop" /\ UNCHANGED <<tid, F, S>>
         ELSE IF GoalGot # GoalWant
         THEN /\ Say("the goal does not say what it should", <<>>) /\ st' = "stop" /\ UNCHANGED <<tid, F, S>>
         ELSE \E e \in want :
                /\ F' = PD!After(Act(e[1]), e[2], F) /\ UNCHANGED <<tid, st>>
                /\ S' = IF Tr.dom = "carry" THEN CAfter(Worlds[tid], S, e[1], e[2]) ELSE KAfter(Worlds[tid], S, e[1], e[2])
Next == Begin \/ Go
Spec == Init /\ [][Next]_vars
(* reported once per instance by the harness: the goal is reachable *)
Reached == (st = "on" /\ GoalWant) => PrintT(ToJson([k |-> "G", t |-> tid]))
=============================================================================
