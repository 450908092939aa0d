------------------------------ MODULE Polygons ------------------------------
(* Planar regions.  Rectilinear ones are sets of unit cells <<x, y>>; general ones are sequences of parts
   [ext |-> ring, holes |-> sequence of rings], a ring being a sequence of integer points. *)
EXTENDS Geometry
Nbr4(S, c) == {d \in S : Abs(c[1] - d[1]) + Abs(c[2] - d[2]) = 1}
RECURSIVE Grow(_, _, _)
Grow(S, done, front) == IF front = {} THEN done
  ELSE LET nx == UNION {Nbr4(S, c) : c \in front} \ done IN Grow(S, done \cup nx, nx)
Component(S, c) == Grow(S, {c}, {c})
RECURSIVE PartsOf(_)
PartsOf(S) == IF S = {} THEN {} ELSE LET p == Component(S, CHOOSE c \in S : TRUE) IN {p} \cup PartsOf(S \ p)
(* parts and holes do not touch, not even in a corner: no two diagonal cells of one kind alone in a 2 x 2 window *)
NoTouch(S, C) == \A c \in C : LET a == c \in S  b == <<c[1] + 1, c[2]>> \in S  x == <<c[1], c[2] + 1>> \in S  d == <<c[1] + 1, c[2] + 1>> \in S IN
  ~(a = d /\ b = x /\ a # b)

(* general rings *)
RECURSIVE Shoe(_, _)
Nxt(R, i) == IF i = Len(R) THEN R[1] ELSE R[i + 1]
Shoe(R, i) == IF i = 0 THEN 0 ELSE R[i][1] * Nxt(R, i)[2] - Nxt(R, i)[1] * R[i][2] + Shoe(R, i - 1)
Area2(R) == Abs(Shoe(R, Len(R)))
PartArea2(p) == Area2(p.ext) - SumSeq([i \in DOMAIN p.holes |-> Area2(p.holes[i])])
(* crossing number; R and x in the same (scaled) units *)
Crosses(a, b, x) == /\ (a[2] > x[2]) # (b[2] > x[2])
                    /\ LET s == Cross(a, b, x) IN IF b[2] > a[2] THEN s > 0 ELSE s < 0
InRing(R, x) == Cardinality({i \in DOMAIN R : Crosses(R[i], Nxt(R, i), x)}) % 2 = 1
(* within about t units of the boundary *)
NearEdge(a, b, x, t) == /\ Abs(Cross(a, b, x)) <= t * (Abs(b[1] - a[1]) + Abs(b[2] - a[2]))
                        /\ InBoxOf(<<Min2(a[1], b[1]) - t, Min2(a[2], b[2]) - t>>, <<Max2(a[1], b[1]) + t, Max2(a[2], b[2]) + t>>, x)
NearRing(R, x, t) == \E i \in DOMAIN R : NearEdge(R[i], Nxt(R, i), x, t)
InPart(p, x) == (InRing(p.ext, x) /\ \A i \in DOMAIN p.holes : ~InRing(p.holes[i], x))
NearPart(p, x, t) == NearRing(p.ext, x, t) \/ \E i \in DOMAIN p.holes : NearRing(p.holes[i], x, t)
==============================================================================
