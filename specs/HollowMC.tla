------------------------------- MODULE HollowMC -------------------------------
(* A hollow box made of one plate per face: plates as long as the box, of thickness t, flush with the face.  Together they fill
   exactly the points within t of a present face.  Every set of faces and every small box.
   Variants: "inner" (plates set in by their thickness), "centre" (plates centred on the face), "thin" (half the thickness). *)
EXTENDS Worlds, Json, IOUtils
PR == ndJsonDeserialize(IOEnv.PARAMS)[1]
N == PR.n   Variant == PR.variant
VARIABLES dims, t, faces, on
Faces == {<<a, s>> : a \in 1..3, s \in {-1, 1}}
Init == /\ dims \in [1..3 -> {4 * k : k \in 1..N}] /\ t \in {2} /\ faces \in SUBSET Faces /\ on = FALSE
        /\ \A a \in 1..3 : dims[a] >= 2 * t
Next == ~on /\ on' = TRUE /\ UNCHANGED <<dims, t, faces>>
Spec == Init /\ [][Next]_<<dims, t, faces, on>>
Plate(f) == LET th == IF Variant = "thin" THEN t \div 2 ELSE t
                off == CASE Variant = "inner" -> (dims[f[1]] - 3 * t) \div 2 [] Variant = "centre" -> dims[f[1]] \div 2 [] OTHER -> (dims[f[1]] - th) \div 2
            IN <<[a \in 1..3 |-> (IF a = 3 THEN dims[3] \div 2 ELSE 0) + IF a = f[1] THEN f[2] * off ELSE 0], [a \in 1..3 |-> IF a = f[1] THEN th \div 2 ELSE dims[a] \div 2]>>
Inside(b, p) == \A a \in 1..3 : p[a] > b[1][a] - b[2][a] /\ p[a] < b[1][a] + b[2][a]
(* odd points: none lies on a face *)
Pts == {p \in [1..3 -> {2 * k + 1 : k \in (-2 * N - 1)..(4 * N)}] : TRUE}
InBox(p) == \A a \in 1..3 : LET lo == IF a = 3 THEN 0 ELSE -(dims[a] \div 2) IN p[a] > lo /\ p[a] < lo + dims[a]
Exact == on => \A p \in Pts : (\E f \in faces : Inside(Plate(f), p)) <=> (InBox(p) /\ Solid(faces, dims, t, p))
(* with both walls on two axes and a floor only, the box is open at the top and nowhere else *)
Bin == {<<1, 1>>, <<1, -1>>, <<2, 1>>, <<2, -1>>, <<3, -1>>}
=============================================================================
