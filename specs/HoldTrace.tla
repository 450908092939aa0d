------------------------------ MODULE HoldTrace ------------------------------
(* Recorded calls: "call" motion streams, "sweep" collision tests, "grasp", "ik", "fixed" and "any" placements.  Lengths are whole
   millimetres, in "any" tenths of a millimetre. *)
EXTENDS Motion, Json, IOUtils
H == INSTANCE Hold
G == INSTANCE Collide
Traces == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES tid, l, bad
T == Traces[tid]
C == T.c
W == [conf |-> T.w.conf, at |-> T.w.at]
R == [to |-> T.r.to, obs |-> Rng(T.r.obs), att |-> Rng(T.r.att)]
CallC == <<
  <<Refused(C) => T.rc = "raise", "an unknown fluent is ignored">>,
  <<~Refused(C) => T.rc # "raise", "a motion stream fails">>,
  <<(T.asked > 0) = Asks(C) /\ T.asked <= 1, "the planner is not asked exactly once">>,
  <<Asks(C) => From(C, W), "planned from elsewhere than the start">>,
  <<Asks(C) => There(C, W), "objects are not where they are said to be while planning">>,
  <<Asks(C) => To(C, R), "planned to another configuration">>,
  <<Asks(C) => Avoids(C, R, T.fixed), "other obstacles than the fixed ones and those said to be there">>,
  <<Asks(C) => Holds(C, R) /\ T.r.grasp, "planned with another load">>,
  <<Asks(C) => T.r.opts, "planned with other settings">>,
  <<T.rc = (IF Refused(C) THEN "raise" ELSE IF ~C.teleport /\ T.path = <<>> THEN "none" ELSE "ok"), "an answer although there is no path, or none although there is one">>,
  <<T.rc = "ok" => T.out = Answer(C, T.path), "the motion is not the planner's path">>,
  <<T.rc = "ok" => T.carry, "the load does not follow the motion">> >>
SweepC == <<
  <<T.hit = "T" \/ T.hit = "F", "no verdict">>,
  <<Hits(T.parts, T.h, T.b, T.pose, TRUE) => T.hit = "T", "a collision along a motion is missed">>,
  <<~Hits(T.parts, T.h, T.b, T.pose, FALSE) => T.hit = "F", "a collision is reported where there is none">> >>
GraspC == <<
  <<T.rc = "ok", "no grasps">>,
  <<\A g \in Rng(T.gs) : H!Grip(g, T.h, T.mid, T.open, T.depth), "a grasp that does not hold the object from above, centred and within the opening">>,
  <<H!GraspsOK(T.gs, T.under, T.h, T.mid, T.open, T.depth), "a grasp is missing or repeated">>,
  <<T.own, "a grasp of another object, robot or tool">> >>
IkC == <<
  <<T.rc = "ok", "inverse kinematics fails">>,
  <<\A i \in DOMAIN T.asked : T.asked[i] = H!Target(T.pose, T.g, T.ap), "inverse kinematics is asked for another tool pose">>,
  <<T.own, "inverse kinematics for another robot or tool">>,
  <<T.got = H!FirstOk(T.tries), "an attempt in collision or out of reach is answered, or a good one is not">> >>
FixedC == <<
  <<T.rc = "ok", "no placements">>,
  <<\A i \in DOMAIN T.ks : T.ks[i] \in 0..3, "an object is not put centrally on its surface">>,
  <<Cardinality(Rng(T.ks)) = Len(T.ks), "a placement is repeated">>,
  <<Rng(T.ks) \subseteq H!May(T.h, T.lo, T.hi, 1, T.obs), "a placement off its surface or in collision">>,
  <<H!Must(T.h, T.lo, T.hi, 1, T.obs) \subseteq Rng(T.ks), "a possible placement is missing">> >>
Inside(p, lo, hi, e) == \A i \in 1..2 : p[i] >= lo[i] - e /\ p[i] <= hi[i] + e
Rect(o) == <<<<o[1], o[2]>>, <<o[3], o[2]>>, <<o[3], o[4]>>, <<o[1], o[4]>>>>
AnyC == <<
  <<T.rc = "ok", "no placements">>,
  <<\A i \in DOMAIN T.ps : T.ps[i].up /\ \A j \in 1..4 : Inside(T.ps[i].v[j], T.lo, T.hi, 2), "a placement off its surface">>,
  <<\A i \in DOMAIN T.ps : \A o \in Rng(T.obs) : G!PolyClass(T.ps[i].v, Rect(o)) # "meet", "a placement in collision">> >>
Clauses == CASE T.kind = "call" -> CallC [] T.kind = "sweep" -> SweepC [] T.kind = "grasp" -> GraspC [] T.kind = "ik" -> IkC [] T.kind = "fixed" -> FixedC [] OTHER -> AnyC
RECURSIVE FirstBad(_)
FirstBad(cs) == IF cs = <<>> THEN "" ELSE IF ~Head(cs)[1] THEN Head(cs)[2] ELSE FirstBad(Tail(cs))
Init == tid \in DOMAIN Traces /\ l = 0 /\ bad = FALSE
Next == /\ l = 0 /\ l' = 1 /\ UNCHANGED tid
        /\ LET b == FirstBad(Clauses) IN
           /\ bad' = (b # "")
           /\ IF b # "" THEN PrintT(ToJson([k |-> "V", t |-> tid, l |-> 0, c |-> b, d |-> <<>>]))
              ELSE PrintT(ToJson([k |-> "D", t |-> tid, kind |-> T.kind]))
Spec == Init /\ [][Next]_<<tid, l, bad>>
=============================================================================
