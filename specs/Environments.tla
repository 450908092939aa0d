---------------------------- MODULE Environments ----------------------------
(* The three environments as sets of unit cells, their reference curves and distances.  Parameters of an environment e:
   e.cls = "straight" (dim, C clearance, L length), "narrow" (dim, H half unit, C clearance), "maze" (dim, len, S, W). *)
EXTENDS Geometry
Boxes(e) ==      \* sequence of boxes <<lo, hi>> whose interiors are disjoint and whose union is the free space
  CASE e.cls = "straight" -> << << [j \in 1..e.dim |-> -e.C], [j \in 1..e.dim |-> IF j = 1 THEN e.L + e.C ELSE e.C] >> >>
    [] e.cls = "narrow" -> << << [j \in 1..e.dim |-> IF j = 1 THEN -3 * e.H ELSE -e.H], [j \in 1..e.dim |-> IF j = 1 THEN -e.H ELSE e.H] >>,
                              << [j \in 1..e.dim |-> IF j = 1 THEN -e.H ELSE -e.C], [j \in 1..e.dim |-> IF j = 1 THEN e.H ELSE e.C] >>,
                              << [j \in 1..e.dim |-> IF j = 1 THEN e.H ELSE -e.H], [j \in 1..e.dim |-> IF j = 1 THEN 3 * e.H ELSE e.H] >> >>
    [] e.cls = "maze" -> LET m == TLCEval(Maze(e.dim, e.len))
                             core(i) == << [j \in 1..e.dim |-> m[i][j] * e.S + e.W], [j \in 1..e.dim |-> (m[i][j] + 1) * e.S - e.W] >>
                             (* the opening between cubes i and i+1, the half on the side of cube k *)
                             half(i, k) == LET d == [j \in 1..e.dim |-> m[i + 1][j] - m[i][j]]
                                               s == IF k = i THEN 1 ELSE -1
                                           IN << [j \in 1..e.dim |-> IF d[j] = 0 THEN m[k][j] * e.S + e.W ELSE IF d[j] * s > 0 THEN (m[k][j] + 1) * e.S - e.W ELSE m[k][j] * e.S],
                                                 [j \in 1..e.dim |-> IF d[j] = 0 THEN (m[k][j] + 1) * e.S - e.W ELSE IF d[j] * s > 0 THEN (m[k][j] + 1) * e.S ELSE m[k][j] * e.S + e.W] >>
                             n == Len(m)
                         IN [x \in 1..3 * n - 2 |-> IF x <= n THEN core(x) ELSE IF x <= 2 * n - 1 THEN half(x - n, x - n) ELSE half(x - 2 * n + 1, x - 2 * n + 2)]
RECURSIVE Prod(_, _)
Prod(f, j) == IF j = 0 THEN 1 ELSE f[j] * Prod(f, j - 1)
Cells(b) == Prod([j \in DOMAIN b[1] |-> b[2][j] - b[1][j]], Len(b[1]))
CellIn(b, c) == \A j \in DOMAIN c : b[1][j] <= c[j] /\ c[j] + 1 <= b[2][j]
Volume(bs) == SumSeq([i \in DOMAIN bs |-> Cells(bs[i])])

RECURSIVE SumSq(_, _)
SumSq(x, j) == IF j = 1 THEN 0 ELSE x[j] * x[j] + SumSq(x, j - 1)      \* over the coordinates 2..j
(* squared distance (lattice units) to the reference path of the straight line and the narrow passage *)
PathLo(e) == IF e.cls = "straight" THEN 0 ELSE -e.H
PathHi(e) == IF e.cls = "straight" THEN e.L ELSE e.H
PathDist2(e, x) ==
  LET a == IF x[1] < PathLo(e) THEN PathLo(e) - x[1] ELSE IF x[1] > PathHi(e) THEN x[1] - PathHi(e) ELSE 0
  IN a * a + SumSq(x, Len(x))
(* point of the reference curve at arclength s (thousandths of a unit edge of the lattice: of one lattice unit for
   straight and narrow, of one cube for the maze), clamped, in thousandths *)
CurveLen(e) == IF e.cls = "maze" THEN 1000 * (Len(Maze(e.dim, e.len)) - 1) ELSE 1000 * (PathHi(e) - PathLo(e))
MazeOf(e) == IF e.cls = "maze" THEN Maze(e.dim, e.len) ELSE <<>>
CurvePoint(e, m, s) ==      \* m = MazeOf(e)
  IF e.cls = "maze" THEN MazeCurve(m, s)
  ELSE [j \in 1..e.dim |-> IF j = 1 THEN 1000 * PathLo(e) + Min2(Max2(s, 0), CurveLen(e)) ELSE 0]
==============================================================================
