---------------------------- MODULE PlaybackTrace ----------------------------
(* Recorded runs with a solver that finds a given plan, or none. *)
EXTENDS Playback, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES tid, l, bad
Tr == Traces[tid]
RECURSIVE FirstBad(_)
FirstBad(cs) == IF cs = <<>> THEN "" ELSE IF ~Head(cs)[1] THEN Head(cs)[2] ELSE FirstBad(Tail(cs))
Ok == Tr.rc = "ok"
Sh == Shown(Tr.vis, Tr.found)
N == Tr.objects
At0 == [o \in 1..N |-> 0]
Rover == Tr.prog = "rover"
C == <<
  <<Ok, "the run fails">>,
  <<Ok => Len(Tr.plays) <= 1, "a plan is shown more than once">>,
  <<Ok /\ ~Sh => Tr.plays = <<>> /\ Tr.moved = <<>>, "something is shown without a viewer or a plan">>,
  <<Ok /\ Sh => Len(Tr.plays) = 1, "the plan found is not shown">>,
  <<Ok /\ Sh => Tr.start, "the plan is shown in another world than it was made for">>,
  <<Ok /\ Sh /\ Tr.plays # <<>> => Tr.plays[1][1] = How(Tr.prog, Tr.sim), "controllers and steps mixed up">>,
  <<Ok /\ Sh /\ Rover /\ ~Tr.sim /\ Tr.plays # <<>> => Tr.plays[1][2] = Timed(Tr.tele), "steps timed when teleporting, or waiting when not">>,
  <<Ok /\ Sh /\ Rover => Tr.moved = Events(Tr.plan, 1), "what is shown does not follow the plan">>,
  <<Ok /\ Sh /\ ~Rover => LET s == Squeeze(Points(Tr.moved)) IN s = Squeeze(<<Tr.home>> \o Passed(Tr.paths)) /\ Steady(Tr.moved), "what is shown does not follow the plan">>,
  <<Ok /\ Sh /\ Len(Tr.at) = N => \A o \in 1..N : Tr.at[o] = After(Tr.plan, At0)[o], "an object does not end where the plan leaves it">> >>
Init == tid \in DOMAIN Traces /\ l = 0 /\ bad = FALSE
Next == /\ l = 0 /\ l' = 1 /\ UNCHANGED tid
        /\ LET b == FirstBad(C) IN
           /\ bad' = (b # "")
           /\ IF b # "" THEN PrintT(ToJson([k |-> "V", t |-> tid, l |-> 0, c |-> b, d |-> <<>>]))
              ELSE PrintT(ToJson([k |-> "D", t |-> tid, shown |-> IF Sh THEN 1 ELSE 0]))
Spec == Init /\ [][Next]_<<tid, l, bad>>
=============================================================================
