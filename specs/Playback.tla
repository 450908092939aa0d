------------------------------ MODULE Playback ------------------------------
(* What a run shows of the plan it found.  Objects stand at places: 0 where they are stated to be, 1 where they are wanted.
   A plan is a sequence of moves <<object, place>>: fetch the object from where it is, bring it there. *)
EXTENDS Integers, Sequences, FiniteSets, TLC
Shown(vis, found) == vis /\ found
How(prog, sim) == IF prog = "rover" /\ sim THEN "controllers" ELSE "steps"
(* with no time step, every step waits for the viewer *)
Timed(tele) == ~tele
RECURSIVE After(_, _)
After(plan, at) == IF plan = <<>> THEN at ELSE After(Tail(plan), [at EXCEPT ![plan[1][1]] = plan[1][2]])
(* the events of playing: drive to the object, fix it, drive on, free it *)
RECURSIVE Events(_, _)
Events(plan, k) == IF plan = <<>> THEN <<>>
  ELSE << <<"go", 2 * k - 1>>, <<"fix", plan[1][1]>>, <<"go", 2 * k>>, <<"free", plan[1][1]>> >> \o Events(Tail(plan), k + 1)
(* the arm: way points passed, with what is carried at each *)
RECURSIVE Passed(_)
Passed(paths) == IF paths = <<>> THEN <<>>
  ELSE [i \in DOMAIN Head(paths).way |-> <<Head(paths).way[i], Head(paths).att>>] \o Passed(Tail(paths))
RECURSIVE Squeeze(_)
Squeeze(s) == IF Len(s) < 2 THEN s ELSE IF s[1] = s[2] THEN Squeeze(Tail(s)) ELSE <<s[1]>> \o Squeeze(Tail(s))
Points(s) == SelectSeq(s, LAMBDA x : x[1] # 0)
(* in between two way points the arm carries what it carries to the second *)
Steady(s) == \A i \in DOMAIN s : s[i][1] = 0 => i < Len(s) /\ s[i + 1][2] = s[i][2]
=============================================================================
