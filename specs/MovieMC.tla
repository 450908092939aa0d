------------------------------- MODULE MovieMC -------------------------------
(* The frames as they are cut: batches of samples, batches of connections, the legs one by one or ten frames of red, and a still
   end.  Wrong variants: "short" leaves out the last incomplete batches, "gap" leaves out the first of every batch
   but the first, "early" cuts the legs before the connections, "mixed" turns red in spite of a solution. *)
EXTENDS Movie, IOUtils, Json
P == ndJsonDeserialize(IOEnv.PARAMS)[1]
V == P.variant   M == P.n
Min(a, b) == IF a < b THEN a ELSE b
VARIABLES N, E, L, F, nb, eb, fr, i, b
vars == <<N, E, L, F, nb, eb, fr, i, b>>
Cut(s, k) == s \div k + (IF V = "short" THEN 0 ELSE 1)
Smp(n, k) == [j \in 1..Cut(n, k) |-> <<"s", j * k>>]
Con(e, k) == [j \in 1..Cut(e, k) |-> <<"c", {x \in 1..e : x > (j - 1) * k + (IF V = "gap" /\ j > 1 THEN 1 ELSE 0) /\ x <= j * k}>>]
End(l, f) == IF f /\ V # "mixed" THEN [j \in 1..l |-> <<"p", j>>] ELSE << <<"r", 0>> >>
Film == IF V = "early" THEN Smp(N, nb) \o End(L, F) \o Con(E, eb) \o << <<"h", 0>> >> ELSE Smp(N, nb) \o Con(E, eb) \o End(L, F) \o << <<"h", 0>> >>
Init == /\ N \in 0..M /\ E \in 0..M /\ F \in BOOLEAN /\ L \in 0..2 /\ (~F => L = 0) /\ nb \in 1..3 /\ eb \in 1..3 /\ fr = Film /\ i = 0 /\ b = Blank
Next == /\ i < Len(fr) /\ i' = i + 1 /\ UNCHANGED <<N, E, L, F, nb, eb, fr>>
        /\ LET f == fr[i + 1] IN
           b' = CASE f[1] = "s" -> [b EXCEPT !.n = Min(N, f[2])]
                  [] f[1] = "c" -> [b EXCEPT !.e = @ \cup f[2]]
                  [] f[1] = "p" -> [b EXCEPT !.g = @ + 1]
                  [] f[1] = "r" -> [b EXCEPT !.red = TRUE]
                  [] OTHER -> b
Spec == Init /\ [][Next]_vars
Right == True(b, N, 1..E, L, F) /\ Ordered(b, N, 1..E)
Whole == i = Len(fr) => Done(b, N, 1..E, L, F)
Smooth == [][Grows(b, b', nb, eb)]_vars
=============================================================================
