------------------------------ MODULE Anytime ------------------------------
(* Anytime motion planning: a roadmap is grown through increasing sample counts until a query succeeds or the budget is
   spent.  The growth factor is the rational P / Q >= 1; counts are whole numbers, but a budget may carry its fraction. *)
EXTENDS Integers, Sequences, FiniteSets, TLC
Max(a, b) == IF a >= b THEN a ELSE b
Abs(x) == IF x < 0 THEN -x ELSE x
(* the counts that may follow count c: c times the factor with or without the fraction of the budget, at least one more *)
Lo(c, P, Q) == Max(c + 1, (c * P) \div Q)
Hi(c, P, Q) == Max(c + 1, ((c + 1) * P) \div Q)
(* a run: counts grown to, answers of the queries (one per count), and whether a path came back *)
First(counts, mn) == Len(counts) >= 1 /\ counts[1] = mn
Growing(counts, P, Q) == \A i \in 1..Len(counts)-1 : counts[i+1] >= Lo(counts[i], P, Q) /\ counts[i+1] <= Hi(counts[i], P, Q)
Within(counts, mx) == \A i \in DOMAIN counts : counts[i] <= mx
StopsAtFirst(found) == \A i \in DOMAIN found : found[i] => i = Len(found)
Spent(counts, mx, P, Q) == Hi(counts[Len(counts)], P, Q) > mx
(* axis-parallel boxes with half extents h around c *)
Hit(p, h, c, k) == \A i \in DOMAIN p : Abs(p[i] - c[i]) < h[i] + k[i]
Free(p, h, obs) == \A j \in DOMAIN obs : ~Hit(p, h, obs[j][1], obs[j][2])
=============================================================================
