------------------------------- MODULE Roadmap -------------------------------
(* What the three kinds of roadmap are, as functions of the samples and the settings in force -- never of the
   history that led there.  P: sequence of sample coordinates (integers); B: set of blocked pairs {i, j};
   radii are given as R = 2 r^2 so that they are integers. *)
EXTENDS Fix

D2(p, q) == LET RECURSIVE S(_)
                S(i) == IF i = 0 THEN 0 ELSE (p[i] - q[i]) * (p[i] - q[i]) + S(i - 1)
            IN  S(Len(p))
DistTable(P) == TLCEval([i \in DOMAIN P |-> TLCEval([j \in DOMAIN P |-> D2(P[i], P[j])])])

(* --- neighbourhoods; T is a distance table over 1..n --- *)
Closer(T, i, j) == {m \in DOMAIN T : m # i /\ m # j /\ T[i][m] < T[i][j]}
InKnn(T, k, i, j) == i # j /\ Cardinality(Closer(T, i, j)) < k
KthD2(T, k, i) == LET kk == Min2(k, Len(T) - 1)
                  IN  MaxS({T[i][j] : j \in {j \in DOMAIN T : InKnn(T, kk, i, j)}})
CertD2(T, k) == MinS({KthD2(T, k, i) : i \in DOMAIN T})

Pairs(n) == {{i, j} : i, j \in 1..n} \ {{i} : i \in 1..n}
End(e) == CHOOSE p \in e \X e : p[1] < p[2]
ED2(T, e) == LET p == End(e) IN T[p[1]][p[2]]

RadiusLe(T, R, B) == {e \in Pairs(Len(T)) : 2 * ED2(T, e) <= R /\ e \notin B}
RadiusLt(T, R, B) == {e \in Pairs(Len(T)) : 2 * ED2(T, e) < R /\ e \notin B}
Knn(T, k, B) == {e \in Pairs(Len(T)) : e \notin B /\ LET p == End(e) IN InKnn(T, k, p[1], p[2]) \/ InKnn(T, k, p[2], p[1])}
(* k-nearest roadmap with radius R in force (0: none); pairs at exactly the radius are left open *)
KnnMust(T, k, R, B) == {e \in Knn(T, k, B) : R = 0 \/ 2 * ED2(T, e) < R}
KnnMay(T, k, R, B)  == {e \in Knn(T, k, B) : R = 0 \/ 2 * ED2(T, e) <= R}

(* --- shortest paths; W[u][v] = length in 1/1000, or -1 --- *)
INF == 2000000000
ShortestFrom(W, s) ==
  LET N == DOMAIN W
      Step(d) == TLCEval([v \in N |-> MinS({d[v]} \cup {d[u] + W[u][v] : u \in {u \in N : d[u] < INF /\ W[u][v] >= 0}})])
      RECURSIVE Fixp(_)
      Fixp(d) == LET e == Step(d) IN IF e = d THEN d ELSE Fixp(e)
  IN  Fixp([v \in N |-> IF v = s THEN 0 ELSE INF])
RECURSIVE Reach(_, _)
Reach(S, E) == LET S2 == S \cup UNION {e \in E : e \cap S # {}} IN IF S2 = S THEN S ELSE Reach(S2, E)
==============================================================================
