------------------------------ MODULE TrialsMC ------------------------------
(* The bisection of a trial over every number of candidates and every outcome pattern.
   Mode "narrow" (threshold t: candidates >= t work; t = m+1: only the maximum works; t = m+2: nothing works) and "line"
   (any pattern).  Variants: "fixed", "noend" (the largest is never tried), "swap" (success raises the lower end),
   "pass" (a time-out counts as passed), "up" (starts the upper end beyond the list). *)
EXTENDS Trials, Json, IOUtils
PR == ndJsonDeserialize(IOEnv.PARAMS)[1]
Mode == PR.mode   MaxM == PR.maxm   Variant == PR.variant
VARIABLES m, t, out, lo, hi, done, flag, tested, pc
vars == <<m, t, out, lo, hi, done, flag, tested, pc>>
Works(i) == i >= t
WMax == t <= m + 1
NaN == 0
Init == /\ m \in 0..MaxM /\ pc = "start" /\ lo = 0 /\ hi = 0 /\ done = FALSE /\ flag = FALSE /\ tested = {}
        /\ IF Mode = "narrow" THEN t \in 1..m+2 /\ out = <<>>
           ELSE t = 0 /\ out \in [1..m -> {"pass", "fail", "time"}] /\ m >= 2 /\ (\A i \in 1..m : i \in {1, 2, m} => out[i] = "fail")
Start == /\ pc = "start" /\ pc' = "loop"
         /\ lo' = IF Mode = "narrow" THEN 1 ELSE 2
         /\ hi' = IF Variant = "up" THEN m + 1 ELSE m
         /\ (IF Mode = "narrow" /\ m = 0 THEN done' = TRUE ELSE done' = FALSE)
         /\ UNCHANGED <<m, t, out, flag, tested>>
End(l, h) == lo' = l /\ hi' = h /\ done' = TRUE /\ UNCHANGED <<m, t, out, tested, pc>>
Loop == /\ pc = "loop" /\ ~done
        /\ IF lo + 1 = hi THEN
             IF Mode = "narrow" /\ hi = m /\ Variant # "noend" /\ ~WMax THEN End(m, NaN) /\ UNCHANGED flag ELSE End(lo, hi) /\ UNCHANGED flag
           ELSE IF lo >= hi THEN
             IF Mode = "narrow" THEN (IF Works(1) THEN End(NaN, 1) ELSE End(1, NaN)) /\ UNCHANGED flag
             ELSE End(lo, hi) /\ flag' = TRUE
           ELSE LET k == (lo + hi) \div 2
                    good == IF Mode = "narrow" THEN Works(k) ELSE out[k] = "pass" \/ (Variant = "pass" /\ out[k] = "time")
                    g == IF Variant = "swap" THEN ~good ELSE good
                IN /\ tested' = tested \cup {k} /\ flag' = (flag \/ (Mode = "line" /\ out[k] = "time"))
                   /\ hi' = (IF g THEN k ELSE hi) /\ lo' = (IF g THEN lo ELSE k)
                   /\ UNCHANGED <<m, t, out, done, pc>>
Next == Start \/ Loop
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Res == IF m = 0 THEN <<0, 0>> ELSE <<lo, hi>>
Right == done => IF Mode = "narrow" THEN Bracket(m, [i \in 1..m |-> Works(i)], WMax, Res[1], Res[2])
                 ELSE LineBracket(m, out, lo, hi) /\ (m = 2 => flag) /\ (m > 2 => (flag <=> \E k \in tested : out[k] = "time"))
Ends == <>done
(* bisection looks at no more than log2 of the candidates *)
Few == Cardinality(tested) <= (IF m <= 2 THEN 0 ELSE IF m <= 4 THEN 2 ELSE IF m <= 8 THEN 3 ELSE 4)
PrintProfile == done => PrintT(ToJson([m |-> m, t |-> t, out |-> out]))
=============================================================================
