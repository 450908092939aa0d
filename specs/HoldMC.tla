------------------------------- MODULE HoldMC -------------------------------
(* The top grasps as they are composed from elementary poses, against what a grasp has to be (GraspsOK), for every object, offset
   of its middle, opening and depth; and the attempts at inverse kinematics as a loop against FirstOk.
   Grasp variants: "flip" (not turned upside down), "swap" (widths exchanged), "top" (whole height instead of half),
   "mid" (the middle's offset forgotten), "twice" (the same two turns again).  Loop variants: "hit" (collisions accepted), "once". *)
EXTENDS Hold, Json, IOUtils
PR == ndJsonDeserialize(IOEnv.PARAMS)[1]
N == PR.n   Variant == PR.variant
VARIABLES mode, h, mid, open, depth, under, tries, i, res
vars == <<mode, h, mid, open, depth, under, tries, i, res>>
P3(x, y, z) == [p |-> <<x, y, z>>, m |-> Id3]
R3(m) == [p |-> <<0, 0, 0>>, m |-> m]
Made(k) == Mul(Mul(Mul(P3(0, 0, IF Variant = "top" THEN 2 * h[3] - depth ELSE h[3] - depth), R3(Turn(k))), R3(IF Variant = "flip" THEN Id3 ELSE Down)),
               IF Variant = "mid" THEN P3(0, 0, 0) ELSE P3(-mid[1], -mid[2], -mid[3]))
Side(a) == 2 * h[IF Variant = "swap" THEN 3 - a ELSE a]
Both(k) == IF under THEN <<Made(k), Made(IF Variant = "twice" THEN k ELSE k + 2)>> ELSE <<Made(k)>>
Composed == (IF Side(1) <= open THEN Both(1) ELSE <<>>) \o (IF Side(2) <= open THEN Both(0) ELSE <<>>)
Outs == {"none", "hit", "ok"}
Init == \/ /\ "grasp" \in Range(PR.modes) /\ mode = "grasp" /\ h \in [1..3 -> 1..N] /\ mid \in [1..3 -> {0, 1}] /\ open \in 0..2 * N + 1 /\ depth \in 0..1 /\ under \in BOOLEAN
           /\ tries = <<>> /\ i = 0 /\ res = 0
        \/ /\ "ik" \in Range(PR.modes) /\ mode = "ik" /\ h = <<1, 1, 1>> /\ mid = <<0, 0, 0>> /\ open = 0 /\ depth = 0 /\ under = FALSE
           /\ tries \in UNION {[1..n -> Outs] : n \in 0..N + 2} /\ i = 1 /\ res = 0
Judge == mode = "grasp" /\ i = 0 /\ i' = 1 /\ UNCHANGED <<mode, h, mid, open, depth, under, tries, res>>
Try ==  /\ mode = "ik" /\ i <= Len(tries) /\ res = 0
        /\ res' = IF tries[i] = "ok" \/ (Variant = "hit" /\ tries[i] = "hit") THEN i ELSE 0
        /\ i' = IF Variant = "once" THEN Len(tries) + 1 ELSE i + 1
        /\ UNCHANGED <<mode, h, mid, open, depth, under, tries>>
Next == Judge \/ Try
Spec == Init /\ [][Next]_vars
Grasps == (mode = "grasp" /\ i = 1) => GraspsOK(Composed, under, h, mid, open, depth)
Loop == mode = "ik" /\ (i > Len(tries) \/ res # 0) => res = FirstOk(tries)
(* the tool approaches an object from where the grasp says it is *)
Reach == (mode = "grasp" /\ i = 1) => \A g \in Grips(h, mid, open, depth) : \A k \in 0..3 :
           LET pose == [p |-> mid, m |-> Turn(k)] t == Target(pose, g, P3(0, 0, 0)) IN Mul(t, g) = pose
=============================================================================
