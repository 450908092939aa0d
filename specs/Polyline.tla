------------------------------ MODULE Polyline ------------------------------
(* A point list `out` refines the way points `way`: it visits all of them in order, and in between only points of the
   straight piece being followed, never turning back.  Coordinates are whole numbers known up to +-1. *)
EXTENDS Integers, Sequences, FiniteSets
LOCAL AbsV(x) == IF x < 0 THEN -x ELSE x
RECURSIVE SumTo(_, _)
SumTo(f(_), k) == IF k = 0 THEN 0 ELSE f(k) + SumTo(f, k - 1)
Dot(a, b) == LET f(i) == a[i] * b[i] IN SumTo(f, Len(a))
Minus(a, b) == [i \in DOMAIN a |-> a[i] - b[i]]
Near(a, b) == \A i \in DOMAIN a : AbsV(a[i] - b[i]) <= 1
(* p lies on the piece a..b: between in every coordinate, and in the same proportion for every pair of coordinates *)
OnPiece(p, a, b) ==
  /\ \A i \in DOMAIN p : LET lo == IF a[i] < b[i] THEN a[i] ELSE b[i]  hi == IF a[i] < b[i] THEN b[i] ELSE a[i] IN p[i] >= lo - 1 /\ p[i] <= hi + 1
  /\ \A i, j \in DOMAIN p : i < j =>
       AbsV((p[i] - a[i]) * (b[j] - a[j]) - (p[j] - a[j]) * (b[i] - a[i])) <= 2 * (AbsV(b[i] - a[i]) + AbsV(b[j] - a[j])) + 4
Ahead(p, q, a, b) == Dot(Minus(q, p), Minus(b, a)) >= -2 * SumTo(LAMBDA i : AbsV(b[i] - a[i]), Len(a)) - 4
(* the pieces being followed after each output point: piece i leads from way[i] to way[i+1]; way[i] has been visited *)
RECURSIVE Pieces(_, _, _, _)
Pieces(way, out, k, S) ==
  IF k > Len(out) \/ S = {} THEN S
  ELSE Pieces(way, out, k + 1,
       {i + 1 : i \in {i \in S : i < Len(way) /\ Near(out[k], way[i+1])}}
       \cup {i \in S : i < Len(way) /\ OnPiece(out[k], way[i], way[i+1]) /\ Ahead(out[k-1], out[k], way[i], way[i+1])})
Refines(way, out) == Len(out) >= 1 /\ Near(out[1], way[1]) /\ Len(way) \in Pieces(way, out, 2, {1})
=============================================================================
