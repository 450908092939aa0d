---------------------------- MODULE NeighboursTrace ----------------------------
(* Recorded calls of one adapter: own, ev; an event is op ("new"/"update"/"get"), out ("ok"/"error"/...), pts, k, e, d
   (distances in 1/1000).  Sample ids are 1-based. *)
EXTENDS Neighbours, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES tid, l, P, k, done
vars == <<tid, l, P, k, done>>
Tr == Traces[tid]
Init == tid \in DOMAIN Traces /\ l = 0 /\ P = <<>> /\ k = 0 /\ done = FALSE
Table(Q, kk, ev) == <<
  <<ev.out = "ok", "call failed">>,
  <<Len(ev.e) = Len(Q) /\ Len(ev.d) = Len(Q), "one row per sample">>,
  <<\A i \in DOMAIN Q : Len(ev.e[i]) = kk /\ Len(ev.d[i]) = kk, "requested number of columns">>,
  <<\A i \in DOMAIN Q : RowIds(Q, i, kk, Tr.own, ev.e[i]), "row is not made of distinct other samples">>,
  <<\A i \in DOMAIN Q : IsNearest(Q, i, Tr.own, Range1(ev.e[i])), "a nearer sample is missing">>,
  <<\A i \in DOMAIN Q : RowOrdered(Q, i, ev.e[i]), "not in order of distance">>,
  <<\A i \in DOMAIN Q : \A j \in 1..kk : Abs(ev.d[i][j] - Milli(Dist2(Q[i], Q[ev.e[i][j]]))) <= 2, "wrong distance">> >>
Clauses(ev) ==
  CASE ev.op = "new" -> Table(ev.pts, ev.k, ev)
    [] ev.op = "update" -> IF k = 0 THEN << <<ev.out = "error", "update before build accepted">> >> ELSE Table(P \o ev.pts, k, ev)
    [] ev.op = "get" -> << <<ev.out = ev.want, "wrong back end">> >>
Next ==
  /\ ~done
  /\ IF l = Len(Tr.ev) THEN done' = TRUE /\ PrintT(ToJson([k |-> "D", t |-> tid, calls |-> l])) /\ UNCHANGED <<tid, l, P, k>>
     ELSE LET ev == Tr.ev[l + 1]  b == FirstBad(Clauses(ev)) IN
          IF b # "" THEN done' = TRUE /\ PrintT(ToJson([k |-> "V", t |-> tid, l |-> l + 1, c |-> b, d |-> ev.op])) /\ UNCHANGED <<tid, l, P, k>>
          ELSE /\ l' = l + 1 /\ UNCHANGED <<tid, done>>
               /\ P' = (CASE ev.op = "new" -> ev.pts [] ev.op = "update" /\ k # 0 -> P \o ev.pts [] OTHER -> P)
               /\ k' = IF ev.op = "new" THEN ev.k ELSE k
Spec == Init /\ [][Next]_vars
================================================================================
