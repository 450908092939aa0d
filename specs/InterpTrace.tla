---------------------------- MODULE InterpTrace ----------------------------
(* Recorded interpolations: way points, output, and the threshold, all in whole units (known up to half a unit each). *)
EXTENDS Polyline, TLC, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES tid, l, bad
Tr == Traces[tid]
Step2(a, b) == Dot(Minus(a, b), Minus(a, b))
(* two points each off by half a unit per coordinate: their distance is off by at most Dim *)
Close(k) == Step2(Tr.out[k], Tr.out[k+1]) <= (Tr.thr + Len(Tr.out[k])) * (Tr.thr + Len(Tr.out[k]))
Clauses == << <<Tr.rc = "ok", "interpolation failed">>,
              <<Tr.rc = "ok" => Tr.exact, "a way point is lost, or the way points are out of order">>,
              <<Tr.rc = "ok" => Refines(Tr.way, Tr.out), "points off the straight pieces, or turning back">>,
              <<Tr.rc = "ok" => \A k \in 1..Len(Tr.out)-1 : Close(k), "a step longer than the threshold">> >>
RECURSIVE FirstBad(_)
FirstBad(cs) == IF cs = <<>> THEN "" ELSE IF ~Head(cs)[1] THEN Head(cs)[2] ELSE FirstBad(Tail(cs))
Init == tid \in DOMAIN Traces /\ l = 0 /\ bad = FALSE
Next == /\ l = 0 /\ l' = 1 /\ UNCHANGED tid
        /\ LET b == FirstBad(Clauses) IN
           /\ bad' = (b # "")
           /\ IF b # "" THEN PrintT(ToJson([k |-> "V", t |-> tid, l |-> 0, c |-> b, d |-> <<>>]))
              ELSE PrintT(ToJson([k |-> "D", t |-> tid, points |-> Len(Tr.out)]))
Spec == Init /\ [][Next]_<<tid, l, bad>>
=============================================================================
