-------------------------------- MODULE Farm --------------------------------
(* An experiment split over processes: which combinations there are, who does which, and what a process' file may hold. *)
EXTENDS Fix
(* task numbers (from 1) of process p (from 0) of P, out of n *)
RECURSIVE Slice(_, _, _)
Slice(p, P, n) == IF p + 1 > n THEN <<>> ELSE <<p + 1>> \o Slice(p + P, P, n)
(* the combinations of an experiment, in order: [t: 1 = radius / line / knn driver, 2 = knn; c: clearance; d: dimension; n: trial] *)
RECURSIVE Prod(_, _, _, _, _)
Prod(t, cs, ds, n, i) ==
  IF i > Len(cs) * Len(ds) * n THEN <<>>
  ELSE LET k == i - 1  tr == k % n  q == k \div n
       IN <<[t |-> t, c |-> cs[q \div Len(ds) + 1], d |-> ds[(q % Len(ds)) + 1], n |-> tr]>> \o Prod(t, cs, ds, n, i + 1)
(* every combination exactly once over all processes *)
Partition(P, n) == /\ \A i \in 1..n : Cardinality({<<p, k>> \in (0..P-1) \X (1..n) : k <= Len(Slice(p, P, n)) /\ Slice(p, P, n)[k] = i}) = 1
                   /\ \A p \in 0..P-1 : Range1(Slice(p, P, n)) \subseteq 1..n
=============================================================================
