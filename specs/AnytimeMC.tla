----------------------------- MODULE AnytimeMC -----------------------------
(* The search loop with an exact rational budget n / d, every minimum, maximum, factor and first success.
   Variants: "int" (the budget drops its fraction), "stuck" (no "at least one more"), "last" (the maximum itself is left
   out), "on" (goes on after a success), "over" (grows once beyond the maximum). *)
EXTENDS Anytime, Json, IOUtils
PR == ndJsonDeserialize(IOEnv.PARAMS)[1]
N == PR.n   Variant == PR.variant   Factors == {<<f[1], f[2]>> : f \in {PR.factors[i] : i \in DOMAIN PR.factors}}
VARIABLES mn, mx, F, t, n, d, counts, found, st
vars == <<mn, mx, F, t, n, d, counts, found, st>>
C == n \div d
Init == /\ mn \in 1..N /\ mx \in mn..N /\ F \in Factors /\ t \in 1..N+1
        /\ n = mn /\ d = 1 /\ counts = <<>> /\ found = <<>> /\ st = "loop"
InBudget == CASE Variant = "last" -> n < mx * d [] Variant = "over" -> n < (mx + 2) * d [] OTHER -> n < (mx + 1) * d
Step == /\ st = "loop" /\ InBudget
        /\ counts' = Append(counts, C)
        /\ found' = Append(found, Len(counts) + 1 >= t)
        /\ LET up == IF Variant = "int" THEN <<C * F[1], F[2]>> ELSE <<n * F[1], d * F[2]>>
               go == IF Variant # "stuck" /\ up[1] < (C + 1) * up[2] THEN <<C + 1, 1>> ELSE up IN
           IF Len(counts) + 1 >= t /\ Variant # "on" THEN st' = "found" /\ UNCHANGED <<n, d>>
           ELSE /\ n' = go[1] /\ d' = go[2] /\ st' = "loop"
        /\ UNCHANGED <<mn, mx, F, t>>
GiveUp == /\ st = "loop" /\ ~InBudget /\ st' = IF found # <<>> /\ found[Len(found)] THEN "found" ELSE "none"
          /\ UNCHANGED <<mn, mx, F, t, n, d, counts, found>>
Next == Step \/ GiveUp
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Right == st # "loop" => /\ First(counts, mn) /\ Growing(counts, F[1], F[2]) /\ Within(counts, mx) /\ StopsAtFirst(found)
                        /\ (st = "none" => Spent(counts, mx, F[1], F[2])) /\ (st = "found") = found[Len(found)]
Ends == <>(st # "loop")
Short == Len(counts) <= N
Scenario == st # "loop" => PrintT(ToJson([mn |-> mn, mx |-> mx, p |-> F[1], q |-> F[2], t |-> IF st = "found" THEN Len(counts) ELSE 0]))
=============================================================================
