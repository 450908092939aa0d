------------------------------- MODULE Deploy -------------------------------
(* What a deployment may do, from the point of view of the cluster: listings, submissions, cancellations, the lock file. *)
EXTENDS Fix, TLC
FAILED == -1
(* room for r more runs, given the count of the last listing and the runs submitted since *)
Room(last, since, r, total) == last # FAILED /\ last + since + r <= total
MayCancel(last, held) == last # FAILED /\ held = last
(* the planned runs: one set with the adaptive bound, and for every random count n the sets (lo, n) and (n-1, n) *)
Planned(sets, lo, hi, points) ==
  LET rest == SelectSeq(sets, LAMBDA s : s # <<0, 0, 1>>)
      a == {i \in DOMAIN rest : rest[i][1] = lo}
      n(S, x) == Cardinality({i \in S : rest[i][2] = x})
  IN /\ Len(sets) = 2 * points + 1 /\ Len(rest) = 2 * points
     /\ Cardinality(a) = points
     /\ \A i \in DOMAIN rest : rest[i][3] = 0 /\ rest[i][2] > lo + 1 /\ rest[i][2] <= hi /\ (i \notin a => rest[i][1] = rest[i][2] - 1)
     /\ \A i \in DOMAIN rest : n(a, rest[i][2]) = n(DOMAIN rest \ a, rest[i][2])
=============================================================================
