------------------------------ MODULE WorldsMC ------------------------------
(* The two-room world built from walls, for every small corridor and shape: the shape crosses exactly when it is narrower than
   the corridor, and nothing gets out.  Variants: "slit" (a flap too short), "wall" (a corridor wall moved in), "open" (a wall missing). *)
EXTENDS Worlds, Json, IOUtils
PR == ndJsonDeserialize(IOEnv.PARAMS)[1]
Room == PR.room   Hall == PR.hall   T == PR.t   Variant == PR.variant
VARIABLES gap, half, on
Init == gap \in 2..(Room - 2 * T) /\ gap % 2 = 0 /\ half \in 1..(Room \div 2) /\ on = FALSE
Next == ~on /\ on' = TRUE /\ UNCHANGED <<gap, half>>
Spec == Init /\ [][Next]_<<gap, half, on>>
(* doubled coordinates, so that halves are whole *)
Box(x0, x1, y0, y1) == <<<<x0 + x1, y0 + y1>>, <<x1 - x0, y1 - y0>>>>
H2 == Hall \div 2   M == Room \div 2   G == gap \div 2
Side(s) == LET B(x0, x1, y0, y1) == IF s = 1 THEN Box(x0, x1, y0, y1) ELSE Box(-x1, -x0, y0, y1) IN
  << B(H2 - T, H2 + Room + T, -T, 0), B(H2 - T, H2 + Room + T, Room, Room + T), B(H2 + Room, H2 + Room + T, -T, Room + T),
     B(H2 - T, H2, -T, M - G - (IF Variant = "slit" THEN T + 2 ELSE 0)), B(H2 - T, H2, M + G, Room + T) >>
Corridor == << Box(-H2 + (IF Variant = "slit" THEN T ELSE 0), H2 - (IF Variant = "slit" THEN T ELSE 0), M + G - (IF Variant = "wall" THEN 1 ELSE 0), M + G + T), Box(-H2 + (IF Variant = "slit" THEN T ELSE 0), H2 - (IF Variant = "slit" THEN T ELSE 0), M - G - T, M - G) >>
World == LET w == Side(1) \o Side(-1) \o Corridor IN IF Variant = "open" THEN Tail(w) ELSE w
(* shape with half side half (in half units: 2 * half doubled once more) *)
S == <<half, half>>
Cut == AllCuts(World, S)
L == <<-2 * (H2 + M), 2 * M>>   R == <<2 * (H2 + M), 2 * M>>
Got == From(World, S, Cut, L)
Crosses == on => (Reaches(Got, Cut, R) <=> half < gap)
Closed == on => ~Escapes(Got, Cut)
=============================================================================
