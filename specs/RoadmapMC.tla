------------------------------ MODULE RoadmapMC ------------------------------
(* The roadmap algorithms as the code performs them (master edge list, cache file, pruning, reloading, incremental
   growth, temporary query nodes), checked against Roadmap's history-free definitions over every history.
   Variant = "found" is the algorithm before the repairs; TLC rejects it. *)
EXTENDS Roadmap, Json, IOUtils
(* instance, written by the checks: kind of roadmap, points in sampling order, ... *)
PR == ndJsonDeserialize(IOEnv.PARAMS)[1]
Kind == PR.kind                    \* "full", "nn", "rad"
Pool == PR.pool
Sizes == Range1(PR.sizes)          \* sample counts
Ks == Range1(PR.ks)                \* neighbour counts
Radii == Range1(PR.radii)          \* doubled squared radii
BlockSets == {{Range1(p) : p \in Range1(b)} : b \in Range1(PR.blocked)}   \* choices of blocked pairs over the pool
Trunc == PR.trunc
Cap == PR.cap
K0 == PR.k0
R0 == PR.r0
Variant == PR.variant
Gen == PR.gen
MaxHist == PR.maxhist

VARIABLES base, n, k, kg, r, g, cache, nodes, nextid, drawn, B, op, hist
vars == <<base, n, k, kg, r, g, cache, nodes, nextid, drawn, B, op, hist>>
abs == <<n, k, kg, r>>
view == IF Gen THEN <<base > 0, n, k, kg, r, nodes = 1..n, op>> ELSE <<vars>>

P == [i \in 1..n |-> Pool[base + i]]
Blk(b, m) == {{i - b, j - b} : <<i, j>> \in {p \in (b+1..b+m) \X (b+1..b+m) : p[1] # p[2] /\ {p[1], p[2]} \in B}}
T0(b, m) == DistTable([i \in 1..m |-> Pool[b + i]])

NONE == 0
Log(o, a) == op' = <<o, a>> /\ hist' = IF Gen THEN Append(hist, <<o, a>>) ELSE hist

Init == /\ base = 0 /\ n = 0 /\ k = K0 /\ kg = 0 /\ r = (IF Kind = "nn" THEN NONE ELSE R0)
        /\ g = {} /\ cache = {} /\ nodes = {} /\ nextid = 1 /\ drawn = 0 /\ B \in BlockSets /\ op = <<"init", 0>> /\ hist = <<>>

(* ---------------- pruning steps of the k-nearest roadmap ---------------- *)
PruneR(E, T, R) == IF R = NONE THEN E ELSE {e \in E : 2 * ED2(T, e) < R}
PruneK(E, T, kk, kgrown) ==
  LET out(u, v) == InKnn(T, kgrown, u, v) /\ ~InKnn(T, kk, u, v)
  IN IF Variant = "found"
     THEN {e \in E : LET p == End(e) IN ~(out(p[1], p[2]) \/ out(p[2], p[1]))}
     ELSE {e \in E : LET p == End(e) IN InKnn(T, kk, p[1], p[2]) \/ InKnn(T, kk, p[2], p[1])}

GrowNN(m) ==
  LET T == T0(base, m)  ke == Min2(k, m - 1)  full == Knn(T, ke, Blk(base, m))  c == 2 * CertD2(T, ke) IN
  /\ m > n /\ n' = m /\ kg' = k /\ cache' = full /\ nodes' = 1..m /\ nextid' = m + 1 /\ drawn' = drawn + m - n
  /\ r' = (IF Trunc THEN c ELSE NONE)
  /\ g' = PruneR(full, T, r')
  /\ UNCHANGED <<base, k, B>>
SetRNN(R) ==
  LET T == T0(base, n)  up == r # NONE /\ R > r IN
  /\ n > 1 /\ r' = R
  /\ g' = IF Variant = "found" THEN PruneR(IF up THEN cache ELSE g, T, R)
          ELSE PruneR(IF up THEN PruneK(cache, T, k, kg) ELSE g, T, R)
  /\ (IF up THEN nodes' = 1..n /\ nextid' = n + 1 ELSE UNCHANGED <<nodes, nextid>>)
  /\ UNCHANGED <<base, n, k, kg, cache, drawn, B>>
SetKNN(kk) ==
  LET T == T0(base, n)  up == kk > k IN
  /\ n > 1 /\ kk <= kg /\ k' = kk
  /\ g' = IF Variant = "found" THEN PruneK(IF up THEN cache ELSE g, T, kk, kg)
          ELSE PruneK(IF up THEN PruneR(cache, T, r) ELSE g, T, kk, kg)
  /\ (IF up THEN nodes' = 1..n /\ nextid' = n + 1 ELSE UNCHANGED <<nodes, nextid>>)
  /\ UNCHANGED <<base, n, kg, r, cache, drawn, B>>

GrowFull(m) ==
  LET T == T0(base, m) IN
  /\ m >= n /\ n' = m /\ g' = RadiusLe(T, r, Blk(base, m)) /\ cache' = g' /\ nodes' = 1..m /\ nextid' = m + 1
  /\ drawn' = drawn + m - n /\ UNCHANGED <<base, k, kg, r, B>>
SetRFull(R) ==
  LET T == T0(base, n) IN
  /\ n > 0 /\ r' = R /\ g' = RadiusLe(T, R, Blk(base, n)) /\ cache' = g' /\ nodes' = 1..n /\ nextid' = n + 1
  /\ UNCHANGED <<base, n, k, kg, drawn, B>>

(* neighbour doubling *)
Enough(T, kk, R) == \/ kk >= Cap \/ kk >= Len(T) \/ \A i \in DOMAIN T : 2 * KthD2(T, kk, i) >= R
RECURSIVE Double(_, _, _)
Double(T, kk, R) == IF Enough(T, kk, R) THEN kk ELSE Double(T, 2 * kk, R)
RadPrune(E, T) == {e \in E : 2 * ED2(T, e) <= r}
GrowRad(m) ==
  LET T == T0(base, m)  Bm == Blk(base, m)
      strict == k >= Cap \/ \A i \in DOMAIN T : 2 * KthD2(T, k, i) > r
      newE == {e \in RadPrune(Knn(T, k, Bm), T) : End(e)[2] > n /\ LET p == End(e) IN InKnn(T, k, p[2], p[1]) \/ p[1] > n}
  IN
  /\ m >= n /\ m > 1 /\ n' = m /\ drawn' = drawn + m - n
  /\ IF n = 0
     THEN /\ k' = Double(T, k, r) /\ nodes' = 1..m /\ nextid' = m + 1
          /\ g' = IF Variant = "found" THEN Knn(T, k', Bm) ELSE RadPrune(Knn(T, k', Bm), T)
     ELSE IF strict
     THEN /\ k' = k
          /\ IF Variant = "found" THEN nodes' = nodes \cup (nextid..nextid + m - n - 1) \cup {i \in 1..m : \E e \in newE : i \in e}
             ELSE nodes' = 1..m
          /\ nextid' = (IF Variant = "found" THEN nextid + m - n ELSE m + 1)
          /\ g' = g \cup newE
     ELSE /\ k' = IF Variant = "found" THEN 2 * k ELSE Double(T, 2 * k, r)
          /\ nodes' = 1..m /\ nextid' = m + 1
          /\ g' = RadPrune(Knn(T, k', Bm), T)
  /\ UNCHANGED <<base, kg, r, cache, B>>

Grow(m) == Log("grow", m) /\ base + m <= Len(Pool) /\ (CASE Kind = "nn" -> GrowNN(m) [] Kind = "full" -> GrowFull(m) [] OTHER -> GrowRad(m))
SetR(R) == Log("setr", R) /\ (CASE Kind = "nn" -> SetRNN(R) [] Kind = "full" -> SetRFull(R) [] OTHER -> FALSE)
SetK(kk) == Log("setk", kk) /\ Kind = "nn" /\ SetKNN(kk)
(* a query borrows two fresh node identifiers and gives the nodes (not the identifiers) back *)
Query == /\ Log("query", 0) /\ n > 1 /\ nextid' = Min2(nextid + 2, n + 3)
         /\ UNCHANGED <<base, n, k, kg, r, g, cache, nodes, drawn, B>>
Shrink(m) == Log("grow", m) /\ m < n /\ UNCHANGED <<base, n, k, kg, r, g, cache, nodes, nextid, drawn, B>>
Reset == /\ Log("reset", 0) /\ n > 0 /\ base = 0 /\ base' = base + n /\ n' = 0 /\ g' = {} /\ cache' = {} /\ nodes' = {} /\ nextid' = 1
         /\ kg' = 0 /\ r' = (IF Kind = "nn" THEN NONE ELSE r) /\ UNCHANGED <<k, drawn, B>>

Next == (Len(hist) < MaxHist \/ ~Gen) /\
        (\/ \E m \in Sizes : Grow(m) \/ Shrink(m)
         \/ \E R \in Radii : SetR(R)
         \/ \E kk \in Ks : SetK(kk)
         \/ Query \/ Reset)
Spec == Init /\ [][Next]_vars

(* ------------------------------ properties ------------------------------ *)
T == DistTable(P)
Bn == Blk(base, n)
Exact == n > 1 =>
   CASE Kind = "full" -> g = RadiusLe(T, r, Bn)
     [] Kind = "nn"   -> KnnMust(T, Min2(k, n - 1), r, Bn) \subseteq g /\ g \subseteq KnnMay(T, Min2(k, n - 1), r, Bn)
     [] OTHER         -> g \subseteq RadiusLe(T, r, Bn) /\ (k < Cap => RadiusLt(T, r, Bn) \subseteq g)
NodesAreSamples == nodes = 1..n
Certificate == (Kind = "nn" /\ n > 1 /\ k = kg) =>
   \A R \in Radii \cup {2 * CertD2(T, k)} : R <= 2 * CertD2(T, k) => KnnMust(T, Min2(k, n-1), R, Bn) = RadiusLt(T, R, Bn)
DrawsAddUp == drawn = base + n
(* growth never loses an edge of a fixed-radius roadmap, hence never a path *)
Monotone == [][(Kind = "full" /\ n' > n /\ base' = base /\ r' = r) => g \subseteq g']_vars
MonotoneRad == [][(Kind = "rad" /\ n' > n /\ n > 1 /\ base' = base /\ k' < Cap) => RadiusLt(T, r, Bn) \subseteq g']_vars

PrintHist == (Gen /\ Len(hist) > 0) => PrintT(ToJson([h |-> hist]))
==============================================================================
