---------------------------- MODULE AnytimeTrace ----------------------------
(* Recorded planner calls.  Points of a path are codes: 1 the start, 2 the goal, others the roadmap's; 0 is anything else. *)
EXTENDS Anytime, Polyline, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES tid, l, bad
Tr == Traces[tid]
Blocked == ~Free(Tr.s, Tr.h, Tr.obs) \/ ~Free(Tr.g, Tr.h, Tr.obs)
Counts == [i \in DOMAIN Tr.ev |-> Tr.ev[i][1]]
Found == [i \in DOMAIN Tr.ev |-> Tr.ev[i][3] = 1]
Hits == {i \in DOMAIN Tr.ev : Tr.ev[i][3] = 1}
RECURSIVE Sub(_, _)
Sub(s, keep) == IF s = <<>> THEN <<>> ELSE (IF Head(s) \in keep THEN <<Head(s)>> ELSE <<>>) \o Sub(Tail(s), keep)
Way == <<1>> \o Tr.path \o <<2>>
WayPts == [i \in DOMAIN Way |-> Tr.pts[Way[i]]]
Range(s) == {s[i] : i \in DOMAIN s}
BlockedC == << <<Tr.out # "path", "a trajectory although start or goal is in collision">> >>
RunC == <<
  <<Tr.seq, "growth and queries do not alternate">>,
  <<First(Counts, Tr.mn), "the first count is not the minimum">>,
  <<Growing(Counts, Tr.p, Tr.q), "counts do not grow by the factor">>,
  <<Within(Counts, Tr.mx), "grown beyond the maximum">>,
  <<StopsAtFirst(Found), "searched on after a path was found">>,
  <<\A i \in DOMAIN Tr.ev : Tr.ev[i][2] = 1, "asked for another start or goal">>,
  <<Hits = {} => Tr.out = "none", "no path found, but no failure reported">>,
  <<Hits = {} /\ Counts # <<>> => Spent(Counts, Tr.mx, Tr.p, Tr.q), "gave up before the maximum">>,
  <<Hits # {} => Tr.out = "path", "a path was found, but not returned">>,
  <<\A i \in DOMAIN Tr.probes : (Tr.probes[i][2] = 1) = Free(Tr.probes[i][1], Tr.h, Tr.obs), "motions checked with another shape or other obstacles">>,
  <<Tr.draws, "samples of the wrong dimension or out of bounds">>,
  <<Hits # {} /\ Tr.mode = "codes" => Tr.codes = Sub(Way, Range(Tr.reach)), "the trajectory is not start, path, goal">>,
  <<Hits # {} /\ Tr.mode = "fine" => Refines(WayPts, Tr.fine), "the trajectory leaves start, path, goal">>,
  <<Hits # {} => Tr.carry, "wrong robot, joints or carried object in the trajectory">> >>
(* answers of inverse kinematics: ask (places), now (answers when given), later (the same answers afterwards) *)
IkC == <<
  <<\A i \in DOMAIN Tr.ask : Tr.now[i] = Tr.ask[i], "inverse kinematics answers another place">>,
  <<Tr.later = Tr.now /\ Tr.after = Tr.start, "inverse kinematics changes earlier configurations">>,
  <<Tr.own, "inverse kinematics moves other joints or another robot">> >>
Context == {"a trajectory although start or goal is in collision", "motions checked with another shape or other obstacles", "samples of the wrong dimension or out of bounds"}
Kept(c) == CASE Tr.scope = "all" -> TRUE [] Tr.scope = "loop" -> c[2] \notin Context \/ Blocked
             [] OTHER -> c[2] \in Context \cup (IF Tr.adapt THEN {"the first count is not the minimum", "grown beyond the maximum", "gave up before the maximum"} ELSE {})
Clauses == IF Tr.kind = "mono" THEN << <<Tr.d[2] >= Tr.d[1] /\ Tr.d[3] <= Tr.d[1] /\ Tr.d[4] <= Tr.d[1], "clearance does not follow bin, object and buffer">>, <<Tr.d[5] - Tr.d[1] \in -1..1, "clearance depends on where the bin stands">>, <<Tr.args, "bound asked for another probability or dimension">> >>
           ELSE IF Tr.kind = "ik" THEN IkC
           ELSE IF Blocked THEN BlockedC ELSE SelectSeq(RunC, Kept)
RECURSIVE FirstBad(_)
FirstBad(cs) == IF cs = <<>> THEN "" ELSE IF ~Head(cs)[1] THEN Head(cs)[2] ELSE FirstBad(Tail(cs))
Init == tid \in DOMAIN Traces /\ l = 0 /\ bad = FALSE
Next == /\ l = 0 /\ l' = 1 /\ UNCHANGED tid
        /\ LET b == FirstBad(Clauses) IN
           /\ bad' = (b # "")
           /\ IF b # "" THEN PrintT(ToJson([k |-> "V", t |-> tid, l |-> 0, c |-> b, d |-> <<>>]))
              ELSE PrintT(ToJson([k |-> "D", t |-> tid, blocked |-> IF Tr.kind = "run" /\ Blocked THEN 1 ELSE 0, growths |-> IF Tr.kind # "run" THEN 0 ELSE Len(Tr.ev)]))
Spec == Init /\ [][Next]_<<tid, l, bad>>
=============================================================================
