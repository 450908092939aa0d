----------------------------- MODULE WorldFacts -----------------------------
(* Recorded initial facts of the arm's planning problem.  Lengths in tenths of a millimetre; angles are not looked at.
   objs: [pose (claimed), real (where the body is), half, home (kin facts at the initial pose), sink (index), pre, post];
   sinks: [lo, hi] outer box and wall thickness t. *)
EXTENDS Facts, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES tid, l, bad
Tr == Traces[tid]
ObjC(o) == <<
  <<o.nat = 1 /\ Near(o.pose, o.real, 1), "an object is not recorded where it stands">>,
  <<o.home >= 1, "no configuration to pick an object where it stands">>,
  <<o.sink > 0, "an object without a sink of its own">>,
  <<o.npost >= 1 /\ o.sink > 0 /\ PostOk(o, Tr.sinks, 1, 100), "the post-insert pose is not inside the sink, on its floor">>,
  <<o.npre >= 1 /\ o.sink > 0 /\ PreOk(o, Tr.sinks), "the pre-insert pose is not above the sink's rim">> >>
HeadC == <<
  <<Tr.rc = "ok", "no planning problem was built">>,
  <<\A i \in DOMAIN Tr.kin : Near(Tr.kin[i][1], Tr.kin[i][2], Tr.lift + 1), "a kinematic fact does not hold the object at its pose">>,
  <<Tr.roles, "sinks, stoves or stackable surfaces are misnamed">>,
  <<Distinct(Tr.objs), "two objects share a sink">>,
  <<Tr.start, "the arm's start is not where it is">> >>
RECURSIVE FirstBad(_)
FirstBad(cs) == IF cs = <<>> THEN "" ELSE IF ~Head(cs)[1] THEN Head(cs)[2] ELSE FirstBad(Tail(cs))
Init == tid \in DOMAIN Traces /\ l = 0 /\ bad = FALSE
Next == /\ ~bad /\ l <= Len(Tr.objs)
        /\ LET b == FirstBad(IF l = 0 THEN HeadC ELSE ObjC(Tr.objs[l])) IN
           /\ bad' = (b # "")
           /\ (b # "" => PrintT(ToJson([k |-> "V", t |-> tid, l |-> l, c |-> b, d |-> <<>>])))
           /\ (b = "" /\ l = Len(Tr.objs) => PrintT(ToJson([k |-> "D", t |-> tid, objects |-> Len(Tr.objs)])))
        /\ l' = l + 1 /\ UNCHANGED tid
Spec == Init /\ [][Next]_<<tid, l, bad>>
=============================================================================
