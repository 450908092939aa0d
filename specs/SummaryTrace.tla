---------------------------- MODULE SummaryTrace ----------------------------
(* Recorded summaries: kind "chart" (bars) and "dots" (scatter and curve).  Bars come in thousandths (success) and in
   hundredths of a second (time); durations are whole seconds, deltas millionths. *)
EXTENDS Summary, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES tid, l, bad
Tr == Traces[tid]
R == Tr.runs
RECURSIVE FirstBad(_)
FirstBad(cs) == IF cs = <<>> THEN "" ELSE IF ~Head(cs)[1] THEN Head(cs)[2] ELSE FirstBad(Tail(cs))
Abs(x) == IF x < 0 THEN -x ELSE x
Near(m, n, total) == Abs(m * n - total) <= n
(* a standard error e of n values with sum a and sum of squares b, in units of 1/u: e^2 n^3 = (n b - a^2) u^2 *)
Err(e, n, a, b, u) == Abs(e * e * n * n * n - (n * b - a * a) * u * u) <= (e + 1) * n * n * n
Bars(q) == {k \in DOMAIN Tr.bars : Tr.bars[k].q = q}
One(q, s) == CHOOSE k \in Bars(q) : Tr.bars[k].s = s
Whole == Tr.rc = "ok" /\ \A q \in {"rate", "time"} : \A s \in Settings(R) : \E k \in Bars(q) : Tr.bars[k].s = s
Num(s) == Cardinality(Of(R, s))
ChartC == <<
  <<Tr.rc = "ok", "the summary fails on the logs of the runs">>,
  <<Tr.rc = "ok" => \A q \in {"rate", "time"} : {Tr.bars[k].s : k \in Bars(q)} = Settings(R) /\ Cardinality(Bars(q)) = Cardinality(Settings(R)), "not one bar for every setting with a finished run">>,
  <<Whole => \A s \in Settings(R) : Near(Tr.bars[One("rate", s)].v, Num(s), 1000 * Wins(R, s)), "another success rate than the runs had">>,
  <<Whole => \A s \in Settings(R) : Near(Tr.bars[One("time", s)].v, Num(s), 100 * Times(R, s)), "another mean time than the runs took">>,
  <<Whole => \A s \in Settings(R) : Err(Tr.bars[One("rate", s)].e, Num(s), Wins(R, s), Wins(R, s), 1000), "another standard error of the success rate">>,
  <<Whole => \A s \in Settings(R) : Err(Tr.bars[One("time", s)].e, Num(s), Times(R, s), Times2(R, s), 100), "another standard error of the time">> >>
Among(p) == Cardinality({k \in DOMAIN Tr.dots : Tr.dots[k] = p})
DotsC == <<
  <<Tr.rc = "ok", "the summary fails on the logs of the runs">>,
  <<Tr.rc = "ok" => Len(Tr.dots) = Cardinality(Found(R)), "not one point for every run that found a motion plan">>,
  <<Tr.rc = "ok" => \A i \in Found(R) : Among(Point(R[i])) = Cardinality({j \in Found(R) : Point(R[j]) = Point(R[i])}), "a point not at its run's clearance and sample count">>,
  <<Tr.rc = "ok" => Len(Tr.curve) > 1 /\ \A k \in DOMAIN Tr.curve : Tr.curve[k][2] = Tr.curve[k][3], "the curve is not the sample bound at its clearance">>,
  <<Tr.rc = "ok" => \A k \in 2..Len(Tr.curve) : Tr.curve[k - 1][1] < Tr.curve[k][1] => Tr.curve[k - 1][2] >= Tr.curve[k][2], "the curve rises with the clearance">> >>
Init == tid \in DOMAIN Traces /\ l = 0 /\ bad = FALSE
Next == /\ ~bad /\ l < 1 /\ l' = l + 1 /\ UNCHANGED tid
        /\ LET b == FirstBad(IF Tr.kind = "chart" THEN ChartC ELSE DotsC) IN
           /\ bad' = (b # "")
           /\ IF b # "" THEN PrintT(ToJson([k |-> "V", t |-> tid, l |-> l, c |-> b, d |-> <<>>]))
              ELSE PrintT(ToJson([k |-> "D", t |-> tid, runs |-> Len(R)]))
Spec == Init /\ [][Next]_<<tid, l, bad>>
=============================================================================
