------------------------------ MODULE SweepMC ------------------------------
(* The collision test of a command against a standing object, as the code runs it (walk every part, carried objects following),
   against its meaning (Hits), on a small plane.  Variants: "ends" (only first and last way point), "first" (only the first part),
   "bare" (carried objects do not follow), "self" (objects moved elsewhere in the command are also tested). *)
EXTENDS Motion, Json, IOUtils
PR == ndJsonDeserialize(IOEnv.PARAMS)[1]
N == PR.n   Variant == PR.variant
H == [x \in {"r", "a", "b"} |-> CASE x = "r" -> <<1, 1>> [] x = "a" -> <<1, 0>> [] OTHER -> <<0, 1>>]
P2 == {<<i, j>> : i \in 0..N, j \in 0..1}
Offs == {<<2, 0>>, <<0, 2>>}
Ways == UNION {[1..n -> P2] : n \in 1..3}
Parts == [way : Ways, att : {<<>>} \cup {<<<<"a", o>>>> : o \in Offs}]
VARIABLES parts, pose, i, j, hit, on
vars == <<parts, pose, i, j, hit, on>>
Line == {w \in Ways : \A k \in 1..Len(w) - 1 : w[k + 1] # w[k] /\ (w[k + 1][1] = w[k][1] \/ w[k + 1][2] = w[k][2])}
PartSet == [way : Line, att : {<<>>} \cup {<<<<"a", o>>>> : o \in Offs}]
Init == /\ \E p \in PartSet, q \in PartSet : parts \in {<<p>>} \cup (IF Len(q.way) = 1 THEN {<<p, q>>} ELSE {})
        /\ pose \in {<<a, b>> : a \in 0..N+1, b \in {0, 2}} /\ i = 1 /\ j = 1 /\ hit = FALSE /\ on \in {"a", "b"}
Seen(p) == IF Variant = "bare" THEN {<<"r", <<0, 0>>>>} ELSE Movers(p)
Step == /\ i <= Len(parts) /\ ~hit
        /\ hit' = IF on \in Moved(parts) /\ Variant # "self" THEN FALSE
                  ELSE \E m \in Seen(parts[i]) : Lap(Add(parts[i].way[j], m[2]), H[m[1]], pose, H[on], TRUE)
        /\ IF j = Len(parts[i].way) \/ (Variant = "ends" /\ j = 1 /\ Len(parts[i].way) = 1) THEN i' = (IF Variant = "first" THEN Len(parts) + 1 ELSE i + 1) /\ j' = 1
           ELSE i' = i /\ j' = IF Variant = "ends" THEN Len(parts[i].way) ELSE j + 1
        /\ UNCHANGED <<parts, pose, on>>
Spec == Init /\ [][Step]_vars
Meaning == hit => Hits(parts, H, on, pose, TRUE)
Complete == i > Len(parts) => hit = Hits(parts, H, on, pose, TRUE)
=============================================================================
