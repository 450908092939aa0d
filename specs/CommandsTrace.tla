---------------------------- MODULE CommandsTrace ----------------------------
(* Recorded translations (kind "carry", "kitchen") and executions (kind "cmd"). *)
EXTENDS Commands, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES tid, l, bad
Tr == Traces[tid]
St == [conf |-> -1, at |-> [b \in Rng(Tr.all) |-> -1]]
CarryC == IF ~CarryKnown(Tr.plan) THEN << <<Tr.rc = "ValueError", "a plan with an unknown action is translated">> >>
          ELSE << <<Tr.rc = "ok", "a plan is not translated">>, <<Tr.out = CarryCmd(Tr.plan), "commands do not follow the plan">> >>
KitchenC == << <<Tr.rc = "ok", "a plan is not translated">>, <<Tr.out = KitchenCmd(Tr.plan), "motions do not follow the plan">> >>
CmdC == <<
  <<Tr.rc = "ok", "a command failed">>,
  <<Tr.play = Play(Tr.c, St), "way points or carried objects out of order">>,
  <<Tr.each = Play(Tr.c, St), "a way point is reported before the carried objects are there">>,
  <<Tr.step = Play(Tr.c, St), "stepping differs from executing">>,
  <<Tr.ctl = Control(Tr.c), "controllers get other targets">>,
  <<Tr.who, "another robot, link or body is attached or detached">>,
  <<Tr.rplay = Play(Rev(Tr.c), St), "the reversed command does not play backwards">>,
  <<Tr.rctl = Control(Rev(Tr.c)), "the reversed command does not undo attaching and detaching in order">>,
  <<Tr.bctl = Control(Tr.c) /\ Tr.bplay = Play(Tr.c, St), "reversing twice is not the same command">>,
  <<Tr.fplay = Play(Refined(Tr.c, Tr.n), St), "a refined command leaves the way points or drops what is carried">>,
  <<Tr.fctl = Control(Refined(Tr.c, Tr.n)), "a refined command attaches or detaches elsewhere">>,
  <<Rng(Tr.bodies) = Bodies(Tr.c, "r"), "the bodies taking part are not those of the parts">> >>
Clauses == CASE Tr.kind = "carry" -> CarryC [] Tr.kind = "kitchen" -> KitchenC [] OTHER -> CmdC
RECURSIVE FirstBad(_)
FirstBad(cs) == IF cs = <<>> THEN "" ELSE IF ~Head(cs)[1] THEN Head(cs)[2] ELSE FirstBad(Tail(cs))
Init == tid \in DOMAIN Traces /\ l = 0 /\ bad = FALSE
Next == /\ l = 0 /\ l' = 1 /\ UNCHANGED tid
        /\ LET b == FirstBad(Clauses) IN
           /\ bad' = (b # "")
           /\ IF b # "" THEN PrintT(ToJson([k |-> "V", t |-> tid, l |-> 0, c |-> b, d |-> <<>>]))
              ELSE PrintT(ToJson([k |-> "D", t |-> tid, parts |-> IF Tr.kind = "cmd" THEN Len(Tr.c) ELSE Len(Tr.plan)]))
Spec == Init /\ [][Next]_<<tid, l, bad>>
=============================================================================
