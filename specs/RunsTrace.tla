------------------------------ MODULE RunsTrace ------------------------------
(* Recorded arrays (kind "array"), single runs (kind "run") and pairs of runs (kind "pair"). *)
EXTENDS Runs, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES tid, l, bad
Tr == Traces[tid]
RECURSIVE FirstBad(_)
FirstBad(cs) == IF cs = <<>> THEN "" ELSE IF ~Head(cs)[1] THEN Head(cs)[2] ELSE FirstBad(Tail(cs))
(* an array: tasks in the order they ran; a task is [i, runs] *)
Want == Asked(Tr.form, Tr.args)
SeedsOf(t) == [k \in DOMAIN t.runs |-> t.runs[k].seed]
Saves(k) == {Tr.tasks[j].runs[1].save : j \in {x \in 1..k : Len(Tr.tasks[x].runs) = 1 /\ Tr.tasks[x].i # Tr.tasks[k].i}}
TaskC(k) == LET t == Tr.tasks[k]  one == Len(t.runs) = 1 IN <<
  <<Len(t.runs) = Len(Seeds(Tr.n, t.i)), IF Len(t.runs) = 0 THEN "a task without a run" ELSE IF t.i \in 1..Tr.n THEN "a task runs more than once" ELSE "a run outside the array">>,
  <<SeedsOf(t) = Seeds(Tr.n, t.i), "another seed than the task's">>,
  <<one => t.runs[1].prog = Tr.prog /\ t.runs[1].there, "not the planner of this problem">>,
  <<one => t.runs[1].mode = Want.mode, "sample limits and computed bound mixed up">>,
  <<one /\ Want.mode = "limits" => t.runs[1].min = Want.min /\ t.runs[1].max = Want.max, "other sample limits than submitted">>,
  <<one /\ Tr.form = "margins" => t.runs[1].margins = Want.margins, "other margins than submitted">>,
  <<one => t.runs[1].save # "" /\ t.runs[1].save \notin Saves(k), "two tasks share a results directory">> >>
(* a run: opts are what the command line says, got is what it did; lengths in hundredths of a millimetre *)
Near(a, b, e) == a - b <= e /\ b - a <= e
O == Tr.opts
RunC == <<
  <<Tr.rc = "ok", "the run fails on its command line">>,
  <<Tr.rc = "ok" => Tr.solved = 1, "not exactly one planning problem is solved">>,
  <<Tr.rc = "ok" => IF O.random THEN Tr.clear >= 997 /\ Tr.clear <= 20003 ELSE Near(Tr.clear, O.delta, 3), "another clearance than asked for">>,
  <<Tr.rc = "ok" => Tr.objects = O.targets, "another number of objects than asked for">>,
  <<Tr.rc = "ok" => Tr.only, "bodies of a discarded world are left behind">>,
  <<Tr.rc = "ok" => Tr.dirs, "results outside the run's own directory">>,
  <<Tr.rc = "ok" => \A k \in DOMAIN Tr.angle : Tr.angle[k] <= O.angle + 1 /\ Tr.angle[k] >= (O.angle * 4) \div 5, "another angle margin than asked for">> >>
PairC == <<
  <<Tr.what = "seed" => Repeats(Tr.s[1], Tr.w[1], Tr.s[2], Tr.w[2]), "equal seeds, different worlds">>,
  <<Tr.what = "seed" => Varies(Tr.s[1], Tr.w[1], Tr.s[2], Tr.w[2]), "different seeds, the same world">>,
  <<Tr.what = "random" => Tr.w[1] # Tr.w[2], "a random clearance that never changes">>,
  <<Tr.what = "buffer" => \A k \in DOMAIN Tr.c : Tr.c[k][2] < Tr.c[k][1], "a larger collision buffer does not lower the clearance">> >>
Steps == IF Tr.kind = "array" THEN Len(Tr.tasks) ELSE 1
Clauses == CASE Tr.kind = "array" -> TaskC(l + 1) [] Tr.kind = "run" -> RunC [] OTHER -> PairC
Init == tid \in DOMAIN Traces /\ l = 0 /\ bad = FALSE
Next == /\ ~bad /\ l < Steps /\ l' = l + 1 /\ UNCHANGED tid
        /\ LET b == FirstBad(Clauses) IN
           /\ bad' = (b # "")
           /\ IF b # "" THEN PrintT(ToJson([k |-> "V", t |-> tid, l |-> l, c |-> b, d |-> <<>>]))
              ELSE l + 1 < Steps \/ PrintT(ToJson([k |-> "D", t |-> tid, tasks |-> IF Tr.kind = "array" THEN Steps ELSE 0]))
Spec == Init /\ [][Next]_<<tid, l, bad>>
=============================================================================
