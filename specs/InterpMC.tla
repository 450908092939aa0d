------------------------------ MODULE InterpMC ------------------------------
(* Inserting points on a piece of length L (in grains) with step bound T: the inserted points divide it evenly.
   Every way of up to three points on a small grid line, every threshold; also that `Refines` accepts exactly the lists which
   visit the way points in order without turning back (against an independent definition on a line).
   Variants: "floor" (too few points), "drop" (the last way point is left out), "once" (equal neighbours merged). *)
EXTENDS Polyline, TLC, Json, IOUtils
PR == ndJsonDeserialize(IOEnv.PARAMS)[1]
N == PR.n   S == 60   Variant == PR.variant
VARIABLES way, thr, out, i
vars == <<way, thr, out, i>>
Ways == UNION {[1..k -> [1..2 -> 0..N]] : k \in 1..3}
Norm2(a, b) == Dot(Minus(a, b), Minus(a, b))
(* least m with |b-a| <= m * thr *)
Pieces2(a, b, t) == CHOOSE m \in 1..(2*N*2+2) : Norm2(a, b) <= m * m * t * t /\ \A x \in 1..m-1 : Norm2(a, b) > x * x * t * t
At(a, b, k, m) == [j \in 1..2 |-> a[j] + ((b[j] - a[j]) * k) \div m]
Scale(p) == [j \in 1..2 |-> p[j] * S]
Init == way \in Ways /\ thr \in 1..N /\ out = <<Scale(way[1])>> /\ i = 1
Next == /\ i < Len(way) /\ i' = i + 1 /\ UNCHANGED <<way, thr>>
        /\ LET a == Scale(way[i]) b == Scale(way[i+1])  m == Pieces2(way[i], way[i+1], thr)
               n == IF Variant = "floor" THEN IF m > 1 THEN m - 1 ELSE 1 ELSE m
               last == IF Variant = "drop" /\ i + 1 = Len(way) THEN {n} ELSE {} IN
           IF Variant = "once" /\ a = b THEN out' = out
           ELSE out' = out \o [k \in 1..(IF last = {} THEN n ELSE n - 1) |-> At(a, b, k, n)]
Spec == Init /\ [][Next]_vars
Done == i = Len(way)
Right == Done => /\ Refines([k \in DOMAIN way |-> Scale(way[k])], out)
                 /\ \A k \in 1..Len(out)-1 : Norm2(out[k], out[k+1]) <= (thr * S + 2) * (thr * S + 2)
(* on a line: a list of numbers refines a way of numbers iff it splits into monotone stretches ending in the way points *)
RECURSIVE Lin(_, _, _, _)
Lin(w, o, k, s) ==      \* o[k..] continues from o[k-1], with way point s visited
  IF k > Len(o) THEN s = Len(w)
  ELSE /\ s < Len(w)
       /\ \/ o[k] = w[s+1] /\ Lin(w, o, k + 1, s + 1)
          \/ /\ (IF w[s] <= w[s+1] THEN o[k] >= o[k-1] /\ o[k] <= w[s+1] ELSE o[k] <= o[k-1] /\ o[k] >= w[s+1])
             /\ Lin(w, o, k + 1, s)
LinRefines(w, o) == Len(o) >= 1 /\ o[1] = w[1] /\ Lin(w, o, 2, 1)
LineOut == UNION {[1..k -> 0..3] : k \in 1..PR.k}
LineWay == UNION {[1..k -> 0..3] : k \in 1..3}
Up(s) == [j \in DOMAIN s |-> <<s[j] * 100>>]
LineRight == (i = 1 /\ thr = 1 /\ way = <<(<<0, 0>>)>> /\ PR.k > 0) => \A w \in LineWay : \A o \in LineOut : Refines(Up(w), Up(o)) = LinRefines(w, o)
=============================================================================
