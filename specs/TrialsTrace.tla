----------------------------- MODULE TrialsTrace -----------------------------
(* Records of real trials: kind "narrow", "line", "knn"; one event per sample count. *)
EXTENDS Trials, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES tid, l, bad
Tr == Traces[tid]
Ev == Tr.ev[l]
HeadC == << <<Tr.rc = "ok", "the trial failed">>, <<Tr.complete, "a record is incomplete or carries wrong settings">>,
            <<Tr.rows = Len(Tr.ev), "not one record per scheduled count">>, <<Tr.query, "wrong start or goal asked for">> >>
NarrowC ==
  LET m == Ev.m  hi == Ev.hi IN
  << <<hi >= 0 /\ Ev.lo >= 0, "a recorded setting is no candidate">>,
     <<Bracket(m, Ev.works, Ev.wmax, Ev.lo, hi), "recorded settings do not bracket the threshold">>,
     <<hi = 0 => Ev.d = 0 /\ Ev.len = 0, "a path is recorded although no setting succeeded">>,
     <<hi # 0 => \/ (Ev.d = Ev.ans[hi].d /\ Ev.len = Ev.ans[hi].l /\ Ev.works[hi])
                 \/ (hi = m /\ Ev.wmax /\ Ev.d = Ev.amax.d /\ Ev.len = Ev.amax.l), "path length or node count is not that of the succeeding setting">>,
     <<(hi = 0) => Ev.info, "no succeeding setting, but nothing is noted">> >>
LineC ==
  << <<Ev.lo > 0 /\ Ev.hi > 0 /\ Ev.lo <= Ev.m /\ Ev.hi <= Ev.m, "a recorded radius is no candidate up to the certified one">>,
     <<LineBracket(Ev.m, Ev.out, Ev.lo, Ev.hi), "recorded radii do not bracket the threshold">>,
     <<Ev.tol, "completeness asked at a tolerance of no candidate radius">>,
     <<Ev.grown, "completeness asked of another roadmap">>,
     <<Ev.m = 2 => Ev.info, "impossible bracket not flagged">>,
     <<Ev.m > 2 => (Ev.info <=> \E i \in DOMAIN Ev.tested : Ev.out[Ev.tested[i]] = "time"), "time-outs not flagged">> >>
KnnC ==
  << <<Ev.nn < Len(Ev.pts) /\ Ev.nn >= 1, "a neighbour count not below the sample count">>,
     <<Abs(Ev.r - Milli(EffRad2(Ev.pts, Ev.nn))) <= 1, "not the smallest distance to that many-th neighbour">> >>
Clauses == CASE Tr.kind = "narrow" -> NarrowC [] Tr.kind = "line" -> LineC [] OTHER -> KnnC
Init == tid \in DOMAIN Traces /\ l = 0 /\ bad = FALSE
Next == /\ ~bad /\ l <= Len(Tr.ev)
        /\ LET cs == IF l = 0 THEN HeadC ELSE Clauses  b == FirstBad(cs) IN
           /\ bad' = (b # "")
           /\ (b # "" => PrintT(ToJson([k |-> "V", t |-> tid, l |-> l, c |-> b, d |-> <<>>])))
           /\ (b = "" /\ l = Len(Tr.ev) => PrintT(ToJson([k |-> "D", t |-> tid, records |-> Len(Tr.ev)])))
        /\ l' = l + 1 /\ UNCHANGED tid
Spec == Init /\ [][Next]_<<tid, l, bad>>
=============================================================================
