------------------------------ MODULE Geometry ------------------------------
(* Exact integer geometry.  Verdicts are three-valued: "in" (must be reported), "out" (must not), "touch" (either). *)
EXTENDS Fix
Pt(x, y) == <<x, y>>
Cross(o, a, b) == (a[1] - o[1]) * (b[2] - o[2]) - (a[2] - o[2]) * (b[1] - o[1])
Sgn(x) == IF x > 0 THEN 1 ELSE IF x < 0 THEN -1 ELSE 0

(* --------------------------------- segments --------------------------------- *)
InBoxOf(a, b, p) == /\ Min2(a[1], b[1]) <= p[1] /\ p[1] <= Max2(a[1], b[1])
                    /\ Min2(a[2], b[2]) <= p[2] /\ p[2] <= Max2(a[2], b[2])
OnSeg(a, b, p) == Cross(a, b, p) = 0 /\ InBoxOf(a, b, p)
(* positive-length overlap of collinear segments: along an axis in which they extend *)
Overlap1(a, b, c, d, i) == Min2(Max2(a[i], b[i]), Max2(c[i], d[i])) > Max2(Min2(a[i], b[i]), Min2(c[i], d[i]))
SegClass(a, b, c, d) ==
  LET o1 == Sgn(Cross(a, b, c)) o2 == Sgn(Cross(a, b, d)) o3 == Sgn(Cross(c, d, a)) o4 == Sgn(Cross(c, d, b)) IN
  IF o1 * o2 < 0 /\ o3 * o4 < 0 THEN "in"
  ELSE IF o1 = 0 /\ o2 = 0 /\ o3 = 0 /\ o4 = 0 /\ a # b /\ c # d /\ (Overlap1(a, b, c, d, 1) \/ Overlap1(a, b, c, d, 2)) THEN "in"
  ELSE IF OnSeg(a, b, c) \/ OnSeg(a, b, d) \/ OnSeg(c, d, a) \/ OnSeg(c, d, b) THEN "touch" ELSE "out"

(* ------------------------ segment against an axis-parallel box (2-D) ------------------------ *)
(* lo, hi: corners.  SepClosed: strictly apart;  SepOpen: the segment misses the inside of the box *)
Corners(lo, hi) == {Pt(lo[1], lo[2]), Pt(lo[1], hi[2]), Pt(hi[1], lo[2]), Pt(hi[1], hi[2])}
SepClosed(p, q, lo, hi) ==
  \/ \E i \in 1..2 : Max2(p[i], q[i]) < lo[i] \/ Min2(p[i], q[i]) > hi[i]
  \/ \A k \in Corners(lo, hi) : Cross(p, q, k) > 0
  \/ \A k \in Corners(lo, hi) : Cross(p, q, k) < 0
SepOpen(p, q, lo, hi) ==
  \/ \E i \in 1..2 : lo[i] >= hi[i]
  \/ \E i \in 1..2 : Max2(p[i], q[i]) <= lo[i] \/ Min2(p[i], q[i]) >= hi[i]
  \/ p # q /\ (\/ \A k \in Corners(lo, hi) : Cross(p, q, k) >= 0
               \/ \A k \in Corners(lo, hi) : Cross(p, q, k) <= 0)

(* ------------------------------- narrow passage ------------------------------- *)
(* H: half a unit, C: clearance, in lattice units.  Walls of dimension i: [-H,H] x [C,H] and its mirror image. *)
NarrowFree(x, H, C) == \/ Abs(x[1]) >= H \/ \A i \in 2..Len(x) : Abs(x[i]) <= C
Proj(x, i) == Pt(x[1], x[i])
NarrowClass(p, q, H, C) ==
  LET up(i) == <<Pt(-H, C), Pt(H, H)>>  dn(i) == <<Pt(-H, -H), Pt(H, -C)>>
      hit(i, w) == ~SepOpen(Proj(p, i), Proj(q, i), w[1], w[2])
      clear(i, w) == SepClosed(Proj(p, i), Proj(q, i), w[1], w[2])
  IN IF \E i \in 2..Len(p) : hit(i, up(i)) \/ hit(i, dn(i)) THEN "out"      \* motion must be refused
     ELSE IF \A i \in 2..Len(p) : clear(i, up(i)) /\ clear(i, dn(i)) THEN "in" ELSE "touch"

(* ------------------------------- straight-line tube ------------------------------- *)
(* the closed box within C (largest coordinate difference) of the segment from the origin to (L, 0, ..) *)
InTube(x, L, C) == \A i \in DOMAIN x : -C <= x[i] /\ x[i] <= C + (IF i = 1 THEN L ELSE 0)
TubeClass(p, q, L, C) == IF InTube(p, L, C) /\ InTube(q, L, C) THEN "in" ELSE "out"

(* ------------------------------- Gray-code maze ------------------------------- *)
RECURSIVE Gray(_)
Rev(s) == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]
Gray(n) == IF n = 0 THEN <<<<>>>>
           ELSE LET g == Gray(n - 1) IN [i \in 1..2 * Len(g) |-> IF i <= Len(g) THEN <<0>> \o g[i] ELSE <<1>> \o g[2 * Len(g) + 1 - i]]
RECURSIVE MazeTo(_, _)
MazeTo(dim, len) == IF len = 0 THEN <<>>
                    ELSE LET g == Gray(dim - 1) s == IF len % 2 = 1 THEN g ELSE Rev(g)
                         IN MazeTo(dim, len - 1) \o [i \in DOMAIN s |-> <<len - 1>> \o s[i]]
Maze(dim, len) == MazeTo(dim, len)
Adjacent(a, b) == Len(a) = Len(b) /\ SumSeq([i \in DOMAIN a |-> Abs(a[i] - b[i])]) = 1
IsCorridor(m, dim, len) ==
  /\ Len(m) = len * 2^(dim - 1) /\ Cardinality(Range1(m)) = Len(m)
  /\ \A i \in DOMAIN m : Len(m[i]) = dim /\ m[i][1] \in 0..len - 1 /\ \A j \in 2..dim : m[i][j] \in {0, 1}
  /\ \A i \in 1..Len(m) - 1 : Adjacent(m[i], m[i + 1])
  /\ m[1] = [j \in 1..dim |-> 0]

(* Every closed face of a cube carries a wall of thickness W on the inside; faces to the next and previous cube are
   open.  S: cube side, lattice units.  Free part of cube i: the cube without the walls on its closed faces. *)
OpenFace(m, i, j, s) == \E k \in {i - 1, i + 1} \cap DOMAIN m : m[k][j] = m[i][j] + s
RoomLo(m, i, S, W) == [j \in DOMAIN m[i] |-> m[i][j] * S + IF OpenFace(m, i, j, -1) THEN 0 ELSE W]
RoomHi(m, i, S, W) == [j \in DOMAIN m[i] |-> (m[i][j] + 1) * S - IF OpenFace(m, i, j, 1) THEN 0 ELSE W]
InRoom(m, i, S, W, x) == \A j \in DOMAIN x : RoomLo(m, i, S, W)[j] <= x[j] /\ x[j] <= RoomHi(m, i, S, W)[j]
MazeFree(m, S, W, x) == \E i \in DOMAIN m : InRoom(m, i, S, W, x)
(* the walls as boxes <<lo, hi>> *)
WallBox(m, i, j, s, S, W) ==
  LET lo == [d \in DOMAIN m[i] |-> m[i][d] * S]
      hi == [d \in DOMAIN m[i] |-> (m[i][d] + 1) * S]
  IN  IF s < 0 THEN <<lo, [hi EXCEPT ![j] = lo[j] + W]>> ELSE <<[lo EXCEPT ![j] = hi[j] - W], hi>>
Walls(m, S, W) == {WallBox(m, x[1], x[2], x[3], S, W) :
                     x \in {y \in (1..Len(m)) \X (1..Len(m[1])) \X {-1, 1} : ~OpenFace(m, y[1], y[2], y[3])}}

(* rationals <<num, den>>, den > 0 *)
Lt(a, b) == a[1] * b[2] < b[1] * a[2]
Le(a, b) == a[1] * b[2] <= b[1] * a[2]
MaxR(a, b) == IF Lt(a, b) THEN b ELSE a
MinR(a, b) == IF Lt(b, a) THEN b ELSE a
RR(n, d) == IF d > 0 THEN <<n, d>> ELSE <<-n, -d>>
RECURSIVE MaxRs(_, _)
MaxRs(f, j) == IF j = 0 THEN <<-1, 1>> ELSE MaxR(f[j], MaxRs(f, j - 1))
RECURSIVE MinRs(_, _)
MinRs(f, j) == IF j = 0 THEN <<2, 1>> ELSE MinR(f[j], MinRs(f, j - 1))
(* times (clipped to [-1, 2]) at which p + t (q - p) is in the box; strict: in its inside; <<1, 0>> when never *)
Span(p, q, lo, hi, strict) ==
  LET D == DOMAIN p  d == [j \in D |-> q[j] - p[j]]
      still == \A j \in D : d[j] = 0 => IF strict THEN lo[j] < p[j] /\ p[j] < hi[j] ELSE lo[j] <= p[j] /\ p[j] <= hi[j]
      a == MaxRs([j \in D |-> IF d[j] = 0 THEN <<-1, 1>> ELSE IF d[j] > 0 THEN RR(lo[j] - p[j], d[j]) ELSE RR(hi[j] - p[j], d[j])], Len(p))
      b == MinRs([j \in D |-> IF d[j] = 0 THEN <<2, 1>> ELSE IF d[j] > 0 THEN RR(hi[j] - p[j], d[j]) ELSE RR(lo[j] - p[j], d[j])], Len(p))
  IN IF ~still \/ (IF strict THEN ~Lt(a, b) ELSE Lt(b, a)) THEN <<<<1, 1>>, <<0, 1>>>> ELSE <<a, b>>
ZERO == <<0, 1>>
ONE == <<1, 1>>
(* a walk through neighbouring rooms that contains the motion: earliest times of being in room i *)
NEVER == <<9, 1>>
WalkCover(sp) ==
  LET I == DOMAIN sp
      e0 == [i \in I |-> IF Le(sp[i][1], ZERO) /\ Le(ZERO, sp[i][2]) THEN ZERO ELSE NEVER]
      via(e, i, j) == LET t == MaxR(e[i], sp[j][1]) IN IF Le(t, sp[i][2]) /\ Le(t, sp[j][2]) THEN t ELSE NEVER
      step(e) == TLCEval([j \in I |-> LET f(i) == IF i \in I /\ e[i] # NEVER THEN via(e, i, j) ELSE NEVER
                                      IN MinR(e[j], MinR(f(j - 1), f(j + 1)))])
      RECURSIVE fix(_)
      fix(e) == LET n == step(e) IN IF \A i \in I : ~Lt(n[i], e[i]) THEN e ELSE fix(n)
      e == fix(e0)
  IN \E i \in I : e[i] # NEVER /\ Le(e[i], ONE) /\ Le(ONE, sp[i][2])
MazeClass(m, S, W, p, q) ==
  LET meets(w) == LET t == Span(p, q, w[1], w[2], FALSE) IN Le(t[1], t[2]) /\ Le(t[1], ONE) /\ Le(ZERO, t[2])
      rooms == TLCEval([i \in DOMAIN m |-> Span(p, q, RoomLo(m, i, S, W), RoomHi(m, i, S, W), FALSE)])
  IN IF ~WalkCover(rooms) THEN "out" ELSE IF \E w \in Walls(m, S, W) : meets(w) THEN "touch" ELSE "in"

(* clearance of a point to the closed faces of its cube, in lattice units *)
MazeClearance(m, i, S, W, x) ==
  MinS({x[j] - m[i][j] * S : j \in {j \in DOMAIN x : ~OpenFace(m, i, j, -1)}}
       \cup {(m[i][j] + 1) * S - x[j] : j \in {j \in DOMAIN x : ~OpenFace(m, i, j, 1)}}) - W

(* point at arclength s (thousandths) of the centre line of the maze, in thousandths *)
MazeCurve(m, s) ==
  LET n == Len(m)  L == 1000 * (n - 1)  t == Min2(Max2(s, 0), L)
      i == Min2(t \div 1000, n - 2) + 1  f == t - (i - 1) * 1000
  IN [j \in DOMAIN m[1] |-> m[i][j] * 1000 + 500 + (m[i + 1][j] - m[i][j]) * f]
==============================================================================
