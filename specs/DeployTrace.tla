----------------------------- MODULE DeployTrace -----------------------------
(* Commands of the real deployment scripts, in order, with what the simulated cluster answered.
   Events: list (n, held; n = -1: failed), submit (runs: planned-run numbers -> sets in Tr.sets, r: number of runs), cancel, sleep,
   unlock (the lock file disappears), end. *)
EXTENDS Deploy, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES tid, l, last, held, since, actual, lock, late, bad
Tr == Traces[tid]
Ev == Tr.ev[l + 1]
Total == Tr.total
SubmitC ==
  << <<lock \/ Tr.nolock \/ late = 0, "submitted a batch after the lock file was gone">>,
     <<lock \/ Tr.nolock \/ Ev.r <= Tr.batch, "more than one batch submitted after the lock file was gone">>,
     <<Tr.noqueue \/ last # FAILED, "submitted although the last queue listing failed">>,
     <<Tr.noqueue \/ Room(last, since, Ev.r, Total), "submitted without room for a whole batch">>,
     <<Tr.noqueue \/ actual + Ev.r <= Max2(Total, Tr.q0), "queue exceeds the configured total">> >>
CancelC == << <<MayCancel(last, held), "cancelled although not every listed job is held">> >>
Grid == {<<d, c, t>> : d \in {20000, 30000, 40000}, c \in {20000, 30000, 40000}, t \in {174533, 98175}}
Plan == IF Tr.plan = "grid" THEN Range1(Tr.sets) = Grid /\ Len(Tr.sets) = Cardinality(Grid)
        ELSE Planned(Tr.sets, Tr.lo, Tr.hi, Tr.points)
EndC ==
  LET free == lock \/ Tr.nolock  all == Plan /\ \A i \in DOMAIN Tr.counts : Tr.counts[i] = Tr.per IN
  << <<\A i \in DOMAIN Tr.counts : Tr.counts[i] <= Tr.per, "a planned run was submitted more than once">>,
     <<free => Ev.rc = 0, "deployment failed">>,
     <<free => Plan, "the submitted runs are not the planned ones">>,
     <<free => all, "a planned run was not submitted">>,
     <<free \/ Ev.rc # 0 \/ all, "went on without the lock file">>,
     <<Tr.script, "a run does not start the right job script">> >>
Clauses == CASE Ev.e = "submit" -> SubmitC [] Ev.e = "cancel" -> CancelC [] Ev.e = "end" -> EndC [] OTHER -> <<>>
Init == tid \in DOMAIN Traces /\ l = 0 /\ last = FAILED /\ held = 0 /\ since = 0 /\ actual = 0 /\ lock = TRUE /\ late = 0 /\ bad = FALSE
Next == /\ ~bad /\ l < Len(Tr.ev)
        /\ last' = (IF Ev.e = "list" THEN Ev.n ELSE last)
        /\ held' = (IF Ev.e = "list" THEN Ev.held ELSE held)
        /\ since' = (IF Ev.e = "list" THEN 0 ELSE IF Ev.e = "submit" THEN since + Ev.r ELSE since)
        /\ actual' = (IF Ev.e \in {"list", "submit", "cancel"} THEN Ev.q ELSE actual)
        /\ lock' = (lock /\ Ev.e # "unlock")
        /\ late' = (IF ~lock /\ Ev.e = "submit" THEN late + 1 ELSE IF Ev.e = "unlock" /\ Ev.when = "pause" THEN 1 ELSE late)
        /\ LET b == FirstBad(Clauses) IN
           /\ bad' = (b # "")
           /\ (b # "" => PrintT(ToJson([k |-> "V", t |-> tid, l |-> l + 1, c |-> b, d |-> <<last, held, since, actual>>])))
           /\ (b = "" /\ l + 1 = Len(Tr.ev) => PrintT(ToJson([k |-> "D", t |-> tid, events |-> Len(Tr.ev)])))
        /\ l' = l + 1 /\ UNCHANGED tid
Spec == Init /\ [][Next]_<<tid, l, last, held, since, actual, lock, late, bad>>
=============================================================================
