------------------------------- MODULE Collide -------------------------------
(* Convex shapes in the plane and oriented boxes in space, on an integer lattice: exact three-valued verdicts
   "meet" (common inner points), "apart" (positive distance), "touch"; and translations of them. *)
EXTENDS Geometry
RECURSIVE Gcd(_, _)
Gcd(a, b) == IF b = 0 THEN Abs(a) ELSE Gcd(b, a % (IF b < 0 THEN -b ELSE b))
Dot(u, v) == SumSeq([i \in DOMAIN u |-> u[i] * v[i]])
X3(u, v) == <<u[2] * v[3] - u[3] * v[2], u[3] * v[1] - u[1] * v[3], u[1] * v[2] - u[2] * v[1]>>
RECURSIVE GcdSeq(_, _)
GcdSeq(v, i) == IF i = 0 THEN 0 ELSE Gcd(v[i], GcdSeq(v, i - 1))
Reduced(v) == LET g == GcdSeq(v, Len(v)) IN IF g <= 1 THEN v ELSE [i \in DOMAIN v |-> v[i] \div g]
Zero(v) == \A i \in DOMAIN v : v[i] = 0

(* ------------------------------- the plane ------------------------------- *)
Normals(P) == {LET q == P[(i % Len(P)) + 1] IN Reduced(<<q[2] - P[i][2], P[i][1] - q[1]>>) : i \in DOMAIN P}
ProjLo(P, n) == MinS({Dot(P[i], n) : i \in DOMAIN P})
ProjHi(P, n) == MaxS({Dot(P[i], n) : i \in DOMAIN P})
PolyClass(A, B) ==
  LET N == Normals(A) \cup Normals(B)
      far(n) == ProjHi(A, n) < ProjLo(B, n) \/ ProjHi(B, n) < ProjLo(A, n)
      weak(n) == ProjHi(A, n) <= ProjLo(B, n) \/ ProjHi(B, n) <= ProjLo(A, n)
  IN IF \E n \in N : far(n) THEN "apart" ELSE IF \E n \in N : weak(n) THEN "touch" ELSE "meet"
Shift(P, v) == [i \in DOMAIN P |-> Pt(P[i][1] + v[1], P[i][2] + v[2])]
(* times at which lo < c + t s < hi (strict) or lo <= c + t s <= hi, as <<from, to>>; NONE when never, ALL when always *)
RQ(a, b) == LET g == Gcd(a, b) IN RR(a \div g, b \div g)
ALL == <<<<-9, 1>>, <<9, 1>>>>
NONE == <<<<1, 1>>, <<0, 1>>>>
When(lo, hi, s, strict) ==
  IF s = 0 THEN IF (strict /\ lo < 0 /\ 0 < hi) \/ (~strict /\ lo <= 0 /\ 0 <= hi) THEN ALL ELSE NONE
  ELSE IF s > 0 THEN <<RQ(lo, s), RQ(hi, s)>> ELSE <<RQ(hi, s), RQ(lo, s)>>
Meet2(a, b) == <<MaxR(a[1], b[1]), MinR(a[2], b[2])>>
RECURSIVE MeetAll(_)
MeetAll(S) == IF S = {} THEN ALL ELSE LET x == CHOOSE x \in S : TRUE IN Meet2(x, MeetAll(S \ {x}))
(* times at which A moving by v over [0, 1] overlaps B *)
PolyWindow(A, B, v, strict) ==
  MeetAll({When(ProjLo(B, n) - ProjHi(A, n), ProjHi(B, n) - ProjLo(A, n), Dot(v, n), strict) : n \in Normals(A) \cup Normals(B)})
NonEmpty(w, strict) == IF strict THEN Lt(w[1], w[2]) ELSE Le(w[1], w[2])
Clip(w) == Meet2(w, <<ZERO, ONE>>)

(* ------------------------------- boxes in space ------------------------------- *)
(* a box: [c: centre, e: half extents, m: three axes (columns), n: length of the axes] *)
BoxAxes(a, b) == {x \in {Reduced(a.m[i]) : i \in 1..3} \cup {Reduced(b.m[i]) : i \in 1..3}
                     \cup {Reduced(X3(a.m[i], b.m[j])) : i \in 1..3, j \in 1..3} : ~Zero(x)}
Reach(a, L) == SumSeq([i \in 1..3 |-> a.e[i] * Abs(Dot(a.m[i], L))])      \* times a.n
Diff(a, b) == [i \in 1..3 |-> b.c[i] - a.c[i]]
BoxGap(a, b, L) == a.n * b.n * Abs(Dot(Diff(a, b), L)) - (b.n * Reach(a, L) + a.n * Reach(b, L))
BoxClass(a, b) ==
  LET G == {BoxGap(a, b, L) : L \in BoxAxes(a, b)} IN
  IF \E g \in G : g > 0 THEN "apart" ELSE IF \E g \in G : g = 0 THEN "touch" ELSE "meet"
BoxWindow(a, b, v, strict) ==
  MeetAll({LET r == b.n * Reach(a, L) + a.n * Reach(b, L)
               d == a.n * b.n * Dot(Diff(a, b), L) s == a.n * b.n * Dot(v, L) IN When(d - r, d + r, s, strict) : L \in BoxAxes(a, b)})

(* ------------------------------- motions ------------------------------- *)
MaxAbs(v) == MaxS({Abs(v[i]) : i \in DOMAIN v})
(* an overlap of more than `step` lattice units in some coordinate cannot be stepped over *)
Long(w, v, step) == LET c == Clip(w) IN
  Lt(c[1], c[2]) /\ (c[2][1] * c[1][2] - c[1][1] * c[2][2]) * MaxAbs(v) > step * c[1][2] * c[2][2]
MotionClass(wo, wc, v, step) ==      \* sets of strict and closed windows, one per obstacle
  IF \E w \in wo : Lt(w[1], w[2]) /\ ((Lt(w[1], ZERO) /\ Lt(ZERO, w[2])) \/ (Lt(w[1], ONE) /\ Lt(ONE, w[2])) \/ Long(w, v, step)) THEN "refuse"
  ELSE IF \A w \in wc : ~NonEmpty(Clip(w), FALSE) THEN "accept" ELSE "either"
PolyMotion(A, obs, v, step) ==
  MotionClass({PolyWindow(A, obs[i], v, TRUE) : i \in DOMAIN obs}, {PolyWindow(A, obs[i], v, FALSE) : i \in DOMAIN obs}, v, step)
BoxMotion(a, obs, v, step) ==
  MotionClass({BoxWindow(a, obs[i], v, TRUE) : i \in DOMAIN obs}, {BoxWindow(a, obs[i], v, FALSE) : i \in DOMAIN obs}, v, step)
(* turning on the way: ends are exact; on the way the shape stays within the ball around it *)
BallOut(a, g, b) ==
  LET r == Isqrt(SumSeq([i \in 1..3 |-> a.e[i] * a.e[i]])) + 1
      far(i, s) == s * Dot(b.m[i], Diff(b, a)) > (b.e[i] + r) * b.n /\ s * Dot(b.m[i], Diff(b, g)) > (b.e[i] + r) * b.n
  IN \E i \in 1..3 : far(i, 1) \/ far(i, -1)
TurnMotion(a, g, obs) ==
  IF \E i \in DOMAIN obs : BoxClass(a, obs[i]) = "meet" \/ BoxClass(g, obs[i]) = "meet" THEN "refuse"
  ELSE IF \A i \in DOMAIN obs : BallOut(a, g, obs[i]) THEN "accept" ELSE "either"
==============================================================================
