------------------------------- MODULE Trials -------------------------------
(* What one trial may record, given what is true of the roadmaps it looked at. *)
EXTENDS Fix
(* narrow passage: m candidates in ascending order; works[i]; wmax = the configured maximum works.
   lo/hi: recorded candidate (0 = not a number). *)
Bracket(m, works, wmax, lo, hi) ==
  CASE m = 0 -> lo = 0 /\ hi = 0
    [] m = 1 -> \/ lo = 0 /\ hi = 1 /\ (works[1] \/ wmax)
                \/ lo = 1 /\ hi = 0 /\ ~(works[1] /\ wmax)
    [] OTHER -> IF wmax THEN /\ lo \in 1..m /\ hi = lo + 1 /\ hi <= m
                             /\ (lo = 1 \/ ~works[lo])            \* the smallest candidate is taken to fail, untested
                             /\ (hi = m \/ works[hi])             \* the largest stands for the maximum
                ELSE lo = m /\ hi = 0
(* straight line: out[i] in {"pass", "fail", "time"}; candidates 1..m, the first is never looked at *)
LineBracket(m, out, lo, hi) ==
  m < 3 \/ /\ hi = lo + 1 /\ lo >= 2 /\ hi <= m
           /\ (lo = 2 \/ out[lo] # "pass") /\ (hi = m \/ out[hi] = "pass")
(* smallest distance to a k-th nearest neighbour over integer points, squared *)
D2(p, q) == SumSeq([i \in DOMAIN p |-> (p[i] - q[i]) * (p[i] - q[i])])
Kth(P, i, k) == LET n == Len(P)
                    d == [j \in 1..n |-> D2(P[i], P[j])]
                    O == (1..n) \ {i}
                IN CHOOSE x \in {d[j] : j \in O} : /\ Cardinality({j \in O : d[j] < x}) < k /\ Cardinality({j \in O : d[j] <= x}) >= k
EffRad2(P, k) == MinS({Kth(P, i, k) : i \in DOMAIN P})
=============================================================================
