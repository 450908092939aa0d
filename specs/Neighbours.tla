------------------------------ MODULE Neighbours ------------------------------
(* What a neighbour table is: row i lists the k samples nearest to sample i, nearest first.  `own`: the back end counts
   the sample itself as its first neighbour. *)
EXTENDS Fix
RECURSIVE Sq(_, _, _)
Sq(p, q, j) == IF j = 0 THEN 0 ELSE (p[j] - q[j]) * (p[j] - q[j]) + Sq(p, q, j - 1)
Dist2(p, q) == Sq(p, q, Len(p))
Cands(P, i, own) == IF own THEN DOMAIN P ELSE DOMAIN P \ {i}
(* a set of ids that may be the k nearest of i (ties may go either way) *)
IsNearest(P, i, own, ids) == \A a \in ids, b \in Cands(P, i, own) \ ids : Dist2(P[i], P[a]) <= Dist2(P[i], P[b])
(* row: sequence of ids *)
RowIds(P, i, k, own, row) ==
  /\ Len(row) = k /\ Range1(row) \subseteq Cands(P, i, own) /\ Cardinality(Range1(row)) = k
RowOrdered(P, i, row) == \A j \in 1..Len(row) - 1 : Dist2(P[i], P[row[j]]) <= Dist2(P[i], P[row[j + 1]])
RowOk(P, i, k, own, row) == RowIds(P, i, k, own, row) /\ IsNearest(P, i, own, Range1(row)) /\ RowOrdered(P, i, row)
===============================================================================
