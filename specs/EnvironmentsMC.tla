--------------------------- MODULE EnvironmentsMC ---------------------------
(* (1) the boxes are disjoint and cover the free space; the corridor and the curve are what they should be;
   (2) the random streams of several environment objects: every object owns its generator.  Variant "shared": one
   generator for all (must be rejected).  Prints interleavings of object creation, draws and other calls. *)
EXTENDS Environments, Json, IOUtils
PR == ndJsonDeserialize(IOEnv.PARAMS)[1]
VARIABLES part, e, c, hist, obj, log
vars == <<part, e, c, hist, obj, log>>

MazeE(d, n, s, w) == [cls |-> "maze", dim |-> d, len |-> n, S |-> s, W |-> w]
Lo(x) == IF x.cls = "maze" THEN [j \in 1..x.dim |-> 0] ELSE IF x.cls = "straight" THEN [j \in 1..x.dim |-> -x.C] ELSE [j \in 1..x.dim |-> IF j = 1 THEN -3 * x.H ELSE -x.H]
Hi(x) == IF x.cls = "maze" THEN [j \in 1..x.dim |-> IF j = 1 THEN x.len * x.S ELSE 2 * x.S]
         ELSE IF x.cls = "straight" THEN [j \in 1..x.dim |-> IF j = 1 THEN x.L + x.C ELSE x.C] ELSE [j \in 1..x.dim |-> IF j = 1 THEN 3 * x.H ELSE x.H]
RECURSIVE Points(_, _, _)
Points(lo, hi, j) == IF j = 0 THEN {<<>>} ELSE {Append(p, v) : p \in Points(lo, hi, j - 1), v \in lo[j]..hi[j] - 1}
Free(x, y) == CASE x.cls = "maze" -> LET m == TLCEval(Maze(x.dim, x.len)) IN
                       \E i \in DOMAIN m : InRoom(m, i, x.S, x.W, y) /\ InRoom(m, i, x.S, x.W, [j \in DOMAIN y |-> y[j] + 1])
                              /\ \A w \in Walls(m, x.S, x.W) : ~CellIn(w, y)
                [] x.cls = "narrow" -> (y[1] < -x.H \/ y[1] >= x.H) \/ \A j \in 2..Len(y) : y[j] >= -x.C /\ y[j] < x.C
                [] OTHER -> TRUE
(* next to two openings of one cube there is a pillar of thickness W: not a wall, but no opening or cube core either *)
Pillar(x, y) == x.cls = "maze" /\ Cardinality({j \in DOMAIN y : y[j] % x.S < x.W \/ y[j] % x.S >= x.S - x.W}) >= 2
Envs == {[cls |-> "straight", dim |-> d, C |-> x, L |-> y] : d \in 2..3, x \in 1..2, y \in 1..3}
        \cup {[cls |-> "narrow", dim |-> d, H |-> 3, C |-> x] : d \in 2..3, x \in 1..3}
        \cup {MazeE(2, n, s, w) : n \in 1..3, s \in 3..4, w \in 0..1} \cup {MazeE(3, n, 3, w) : n \in 1..2, w \in 0..1}
Objs == 1..PR.objs
Seeds == 1..PR.seeds
Init == \/ part = "boxes" /\ e \in Envs /\ c \in Points(Lo(e), Hi(e), e.dim) /\ hist = <<>> /\ obj = <<>> /\ log = <<>>
        \/ part = "gray" /\ e \in {MazeE(d, n, 2, 0) : d \in 2..PR.maxdim, n \in 1..PR.maxlen} /\ c = <<>> /\ hist = <<>> /\ obj = <<>> /\ log = <<>>
        \/ part = "streams" /\ e = 0 /\ c = <<>> /\ hist = <<>> /\ obj = [o \in Objs |-> <<0, 0>>] /\ log = [o \in Objs |-> <<>>]
Make(o, s) == obj' = [obj EXCEPT ![o] = <<s, 0>>] /\ log' = [log EXCEPT ![o] = <<>>]
Draw(o) == /\ obj[o][1] # 0
           /\ obj' = IF PR.variant = "shared" THEN [p \in Objs |-> <<obj[p][1], obj[p][2] + 1>>] ELSE [obj EXCEPT ![o][2] = @ + 1]
           /\ log' = [log EXCEPT ![o] = Append(@, <<obj[o][1], obj'[o][2]>>)]
Use(o) == obj[o][1] # 0 /\ UNCHANGED <<obj, log>>
Next == /\ part = "streams" /\ Len(hist) < PR.maxhist
        /\ \E o \in Objs : \/ \E s \in Seeds : Make(o, s) /\ hist' = Append(hist, <<"make", o, s>>)
                           \/ Draw(o) /\ hist' = Append(hist, <<"draw", o, 0>>)
                           \/ Use(o) /\ hist' = Append(hist, <<"use", o, 0>>)
        /\ UNCHANGED <<part, e, c>>
Spec == Init /\ [][Next]_vars
BoxesAreFree == part = "boxes" =>
  LET n == Cardinality({i \in DOMAIN Boxes(e) : CellIn(Boxes(e)[i], c)}) IN n <= 1 /\ (n = 1 => Free(e, c)) /\ ((Free(e, c) /\ n = 0) => Pillar(e, c))
VolumeOk == (part = "boxes" /\ c = Lo(e)) =>
  Volume(Boxes(e)) = Cardinality({y \in Points(Lo(e), Hi(e), e.dim) : \E i \in DOMAIN Boxes(e) : CellIn(Boxes(e)[i], y)})
Corridor == part = "gray" => IsCorridor(Maze(e.dim, e.len), e.dim, e.len)
CurveOk == part = "gray" =>
  LET m == TLCEval(Maze(e.dim, e.len)) L == CurveLen(e)  P(s) == MazeCurve(m, s) IN
  /\ \A s \in {x * 125 : x \in 0..(L \div 125) - 1} :
     /\ SumSeq([j \in 1..e.dim |-> Abs(P(s)[j] - P(s + 125)[j])]) = 125
     /\ \E i \in DOMAIN m : \A j \in 1..e.dim : P(s)[j] \in m[i][j] * 1000..(m[i][j] + 1) * 1000
     (* centred: half a cube away from every closed face *)
     /\ \E i \in DOMAIN m : MazeClearance(m, i, 1000, 0, P(s)) = 500 /\ \A j \in 1..e.dim : P(s)[j] \in m[i][j] * 1000..(m[i][j] + 1) * 1000
  /\ P(0) = [j \in 1..e.dim |-> 500] /\ P(L) = [j \in 1..e.dim |-> 1000 * m[Len(m)][j] + 500]
StreamsOwn == part = "streams" => \A o \in Objs : \A i \in DOMAIN log[o] : log[o][i] = <<obj[o][1], i>>
PrintHist == part # "streams" \/ Len(hist) < PR.maxhist \/ PrintT(ToJson([h |-> hist]))
===============================================================================
