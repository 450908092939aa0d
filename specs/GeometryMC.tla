----------------------------- MODULE GeometryMC -----------------------------
(* The geometry definitions against independent ones, over every case of a small lattice. *)
EXTENDS Geometry, Json, IOUtils
PR == ndJsonDeserialize(IOEnv.PARAMS)[1]
VARIABLES a, b, c, d, part
vars == <<a, b, c, d, part>>
N == PR.n
Grid == {Pt(x, y) : x \in 0..N, y \in 0..N}
H == PR.H
C == PR.C
M == TLCEval(Maze(PR.dim, PR.len))

(* common points of the segments, sampled finely enough to contain every crossing of lattice segments *)
K == PR.k
On(p, q, t) == Pt(p[1] * K + (q[1] - p[1]) * t, p[2] * K + (q[2] - p[2]) * t)     \* scaled by K
SampledMeet == \E t \in 0..K : OnSeg(Pt(c[1] * K, c[2] * K), Pt(d[1] * K, d[2] * K), On(a, b, t))
Init ==
  \/ "seg" \in Range1(PR.parts) /\ part = "seg" /\ a \in Grid /\ b \in Grid /\ c \in Grid /\ d \in Grid
  \/ "narrow" \in Range1(PR.parts) /\ part = "narrow" /\ a \in {Pt(x, y) : x \in -PR.X..PR.X, y \in -H..H} /\ NarrowFree(a, H, C)
     /\ b \in {Pt(x, y) : x \in -PR.X..PR.X, y \in -H..H} /\ NarrowFree(b, H, C) /\ c = 0 /\ d = 0
  \/ "maze" \in Range1(PR.parts) /\ part = "maze" /\ a \in {Pt(x, y) : x \in 0..PR.len * PR.S, y \in 0..2 * PR.S} /\ MazeFree(M, PR.S, PR.W, a)
     /\ b \in {Pt(x, y) : x \in 0..PR.len * PR.S, y \in 0..2 * PR.S} /\ MazeFree(M, PR.S, PR.W, b) /\ c = 0 /\ d = 0
  \/ "tube" \in Range1(PR.parts) /\ part = "tube" /\ a \in {Pt(x, y) : x \in -PR.X..PR.X, y \in -H..H}
     /\ b \in {Pt(x, y) : x \in -PR.X..PR.X, y \in -H..H} /\ c \in 0..PR.X - C /\ d = 0
  \/ "gray" \in Range1(PR.parts) /\ part = "gray" /\ a \in 2..PR.maxdim /\ b \in 1..PR.maxlen /\ c = 0 /\ d = 0
Spec == Init /\ [][UNCHANGED vars]_vars
SegSymmetric == part = "seg" => LET k == SegClass(a, b, c, d) IN k = SegClass(c, d, a, b) /\ k = SegClass(b, a, c, d) /\ k = SegClass(b, a, d, c)
SegSampled == part = "seg" => (SampledMeet => SegClass(a, b, c, d) # "out") /\ (SegClass(a, b, c, d) = "touch" => SampledMeet)
(* a refused motion has a sampled point inside a wall, an accepted one has none on a wall *)
InWall(x, strict) == LET y == Abs(x[2]) h == H * K cc == C * K IN
    IF strict THEN Abs(x[1]) < h /\ cc < y /\ y < h ELSE Abs(x[1]) <= h /\ cc <= y
NarrowSampled == part = "narrow" =>
  LET k == NarrowClass(a, b, H, C) IN
  /\ (\E t \in 0..K : InWall(On(a, b, t), TRUE)) => k = "out"
  /\ (\E t \in 0..K : InWall(On(a, b, t), FALSE)) => k # "in"
  /\ k = "out" => \E t \in 0..K : InWall(On(a, b, t), FALSE)
  /\ k = NarrowClass(b, a, H, C)
MazeSampled == part = "maze" =>
  LET k == MazeClass(M, PR.S, PR.W, a, b)
      free(x) == MazeFree(M, PR.S * K, PR.W * K, x) IN
  /\ k = MazeClass(M, PR.S, PR.W, b, a)
  /\ (\E t \in 0..K : ~free(On(a, b, t))) => k = "out"
  /\ (PR.W > 0 /\ k = "out") => \E t \in 0..K : ~free(On(a, b, t))
  /\ k = "in" => \A t \in 0..K : \A w \in Walls(M, PR.S * K, PR.W * K) :
        ~(\A j \in 1..2 : w[1][j] <= On(a, b, t)[j] /\ On(a, b, t)[j] <= w[2][j])
(* exactly the motions all of whose points are within C of some point of the line *)
NearLine(x, L, r) == \E t \in 0..L : Abs(x[1] - t) <= r /\ Abs(x[2]) <= r
TubeSampled == part = "tube" =>
  /\ (TubeClass(a, b, c, C) = "in") = (\A t \in 0..K : NearLine(On(a, b, t), c * K, C * K))
  /\ TubeClass(a, b, c, C) = TubeClass(b, a, c, C)
GrayCorridor == part = "gray" => IsCorridor(Maze(a, b), a, b)
CurveOk == part = "gray" =>
  LET m == Maze(a, b) L == 1000 * (Len(m) - 1) IN
  \A s \in {x * 125 : x \in 0..(L \div 125) - 1} :
     /\ SumSeq([j \in 1..a |-> Abs(MazeCurve(m, s)[j] - MazeCurve(m, s + 125)[j])]) = 125
     /\ \E i \in DOMAIN m : \A j \in 1..a : MazeCurve(m, s)[j] \in m[i][j] * 1000..(m[i][j] + 1) * 1000
=============================================================================
