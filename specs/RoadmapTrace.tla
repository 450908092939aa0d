---------------------------- MODULE RoadmapTrace ----------------------------
(* Histories recorded from the real roadmap classes, judged against Roadmap.  One recorded history per line:
   pid kind pts(sampler output, in order) blk(blocked pairs of draws) qpts qblk k0 self trunc exp cap r0 ev
   Every event carries the projection of the object after the call: S (draws held, in order), V (nodes), E (edges with
   lengths in 1/1000), drawn. *)
EXTENDS Roadmap, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES tid, l, n, base, k, kg, r, G, best, done
vars == <<tid, l, n, base, k, kg, r, G, best, done>>
Tr == Traces[tid]

Init == /\ tid \in DOMAIN Traces /\ l = 0 /\ n = 0 /\ base = 0 /\ k = Tr.k0 /\ kg = 0 /\ r = Tr.r0
        /\ G = <<>> /\ best = [q \in DOMAIN Tr.qs |-> -1] /\ done = FALSE

CERT == -1                     \* r = CERT: truncated to the certified radius;  r = 0: none
Pt(b, m) == [i \in 1..m |-> Tr.pts[b + i]]
Blk(b, m) == {{p[1] - b, p[2] - b} : p \in {p \in Range1(Tr.blk) : p[1] > b /\ p[1] <= b + m /\ p[2] > b /\ p[2] <= b + m}}
(* neighbours a back end really offers: with pynndescent the sample itself takes one slot *)
Keff(kk, m) == Min2(kk, m - 1) - Tr.self
Edges(E) == {{e[1], e[2]} : e \in Range1(E)}
WellFormed(E, m) == /\ Cardinality(Edges(E)) = Len(E)
                    /\ \A i \in DOMAIN E : E[i][1] \in 1..m /\ E[i][2] \in 1..m /\ E[i][1] < E[i][2]
WeightsOk(E, T) == \A i \in DOMAIN E : Abs(E[i][3] - Milli(T[E[i][1]][E[i][2]])) <= 2
W(E, m) == LET f == {<<e[1], e[2], e[3]>> : e \in Range1(E)} IN
           [u \in 1..m |-> [v \in 1..m |-> LET c == {e \in f : (e[1] = u /\ e[2] = v) \/ (e[1] = v /\ e[2] = u)}
                                           IN IF c = {} THEN -1 ELSE MinS({e[3] : e \in c})]]

(* --------------------------- roadmap after a mutating call --------------------------- *)
Rdoubled(T, kk, rr) == IF rr = CERT THEN 2 * CertD2(T, Keff(kk, Len(T))) ELSE rr
EdgeClauses(ev, T, nn, b, kk, kgr, rr) ==
  LET Bn == Blk(b, nn)  E == Edges(ev.E) R == Rdoubled(T, kgr, rr) IN
  CASE Tr.kind = "full" -> << <<RadiusLe(T, R, Bn) \subseteq E, "missing edge">>, <<E \subseteq RadiusLe(T, R, Bn), "wrong edge">> >>
    [] Tr.kind = "nn" /\ Tr.pid = "C03" ->
         IF rr = 0 \/ kk # kgr \/ R > 2 * CertD2(T, Keff(kgr, nn)) THEN <<>>
         ELSE << <<RadiusLt(T, R, Bn) \subseteq E, "missing short edge">>, <<E \subseteq RadiusLe(T, R, Bn), "long or invalid edge">> >>
    [] Tr.kind = "nn" -> LET ke == IF kk >= kgr THEN Keff(kgr, nn) ELSE Min2(kk, nn - 1) - Tr.self IN
         << <<KnnMust(T, ke, R, Bn) \subseteq E, "missing edge">>, <<E \subseteq KnnMay(T, ke, R, Bn), "wrong edge">> >>
    [] OTHER -> << <<E \subseteq RadiusLe(T, R, Bn), "over-long or invalid edge">>,
                   <<Tr.capped \/ RadiusLt(T, R, Bn) \subseteq E, "missing edge">> >>
Mutated(ev, nn, b, kk, kgr, rr) ==
  LET T == DistTable(Pt(b, nn)) IN
  << <<ev.n = nn /\ Len(ev.S) = nn, "number of samples">>,
     <<Len(ev.V) = nn /\ Range1(ev.V) = 1..nn, "roadmap nodes are not the samples">>,
     <<WellFormed(ev.E, nn), "malformed edges">> >>
  \o (IF nn < 2 THEN <<>> ELSE EdgeClauses(ev, T, nn, b, kk, kgr, rr))
  \o << <<WellFormed(ev.E, nn) /\ WeightsOk(ev.E, T), "edge length">> >>

GrowClauses(ev, m) ==
  LET T == DistTable(Pt(base, m))  E == Edges(ev.E) IN
  << <<ev.drawn = base + m, "number of draws">>, <<ev.S = [i \in 1..m |-> base + i], "samples kept in order">> >>
  \o Mutated(ev, m, base, k, k, IF Tr.kind = "nn" THEN (IF Tr.trunc THEN CERT ELSE 0) ELSE r)
  \o (IF Tr.kind = "full" /\ Tr.pid = "C01"
      THEN LET M == TLCEval(IF WellFormed(ev.E, m) THEN {Milli(ED2(T, e)) : e \in E} ELSE {}) X == Range1(ev.ret) IN
           << <<WellFormed(ev.E, m) /\ \A x \in X : (x - 2..x + 2) \cap M # {}, "reported distance is no edge length">>,
              <<WellFormed(ev.E, m) /\ \A x \in M : (x - 2..x + 2) \cap X # {}, "edge length not reported">> >> ELSE <<>>)
  \o (IF Tr.kind = "nn" /\ Tr.pid = "C03"
      THEN << <<Abs(ev.cert - Milli(CertD2(T, Keff(k, m)))) <= 2, "certified radius">> >> ELSE <<>>)

(* --------------------------- queries on the recorded roadmap --------------------------- *)
Entry(q, P, m, R) == {i \in 1..m : 2 * D2(q.p, P[i]) <= R /\ (base + i) \notin Range1(q.b)}
QR == LET T == DistTable(Pt(base, n)) IN IF r > 0 THEN r ELSE 2 * CertD2(T, Keff(kg, n))
Query(ev) ==
  LET q == Tr.qs[ev.q]  P == Pt(base, n)
      Ss == Entry(q.s, P, n, QR)  Gs == Entry(q.g, P, n, QR)
      w == TLCEval(W(G, n))
      legS(i) == Milli(D2(q.s.p, P[i]))  legG(i) == Milli(D2(q.g.p, P[i]))
      WW == TLCEval([u \in 1..n+1 |-> [v \in 1..n+1 |-> IF u <= n /\ v <= n THEN w[u][v]
                        ELSE IF u = n + 1 /\ v \in Ss THEN legS(v) ELSE IF v = n + 1 /\ u \in Ss THEN legS(u) ELSE -1]])
      d == ShortestFrom(WW, n + 1)
      opt == MinS({INF} \cup {d[i] + legG(i) : i \in {i \in Gs : d[i] < INF}})
      p == ev.path
      onS == p # <<>> /\ \A i \in DOMAIN p : p[i] \in 1..n
      plen == legS(p[1]) + legG(p[Len(p)]) + SumSeq([i \in 1..Len(p) - 1 |-> w[p[i]][p[i + 1]]])
      tol == n + 4
      res == IF opt = INF THEN << <<ev.d = -1, "distance without a path">>, <<p = <<>>, "path although none exists">> >>
             ELSE << <<ev.d >= 0, "no solution although a path exists">>, <<Abs(ev.d - opt) <= tol, "not the shortest distance">>,
                     <<onS, "path is not made of samples">>,
                     <<onS /\ p[1] \in Ss, "path does not begin next to the start">>, <<onS /\ p[Len(p)] \in Gs, "path does not end next to the goal">>,
                     <<onS /\ \A i \in 1..Len(p) - 1 : w[p[i]][p[i+1]] >= 0, "path uses a missing edge">>,
                     <<onS /\ Abs(plen - ev.d) <= tol, "path and distance disagree">> >>
  IN << <<ev.ok, "query failed">> >> \o res
     \o << <<ev.E = G /\ ev.V = [i \in 1..n |-> i] /\ ev.n = n /\ ev.nv = n /\ ev.ne = ev.nl + Len(G), "query changed the roadmap">> >>
     \o (IF Tr.pid = "C07" THEN << <<best[ev.q] < 0 \/ Tr.capped \/ (ev.d >= 0 /\ ev.d <= best[ev.q] + 2), "more samples hurt">> >> ELSE <<>>)
Conns(ev) ==
  LET q == Tr.qs[ev.q]  P == Pt(base, n)
      Ss == Entry(q.s, P, n, QR)  Gs == Entry(q.g, P, n, QR)
      w == TLCEval(W(G, n))
      d == TLCEval([s \in Ss |-> ShortestFrom(w, s)])
      rows == ev.rows
  IN << <<ev.ok, "query failed">>,
        <<Len(rows) = Cardinality(Ss) * Cardinality(Gs) /\ {<<x[1], x[2]>> : x \in Range1(rows)} = Ss \X Gs, "entry/exit pairs">>,
        <<\A i \in DOMAIN rows : rows[i][4] = rows[i][1] /\ rows[i][5] = rows[i][2], "coordinates of the pair">>,
        <<\A i \in DOMAIN rows : rows[i][1] \in Ss /\ rows[i][2] \in 1..n /\ LET e == d[rows[i][1]][rows[i][2]] IN
             IF e = INF THEN rows[i][3] = -1 ELSE rows[i][3] >= 0 /\ Abs(rows[i][3] - e) <= n + 4, "roadmap distance of the pair">>,
        <<ev.E = G /\ ev.V = [i \in 1..n |-> i] /\ ev.n = n, "query changed the roadmap">> >>

Unchanged(ev) == << <<~ev.ok, "not refused">>,
   <<ev.E = G /\ ev.n = n /\ ev.drawn = base + n /\ ev.S = [i \in 1..n |-> base + i], "refused call changed the roadmap">>,
   <<Tr.kind # "nn" \/ ev.conn = -2 \/ (ev.conn = -1) = (r = 0), "refused call changed the radius in force">> >>
Clauses(ev) ==
  CASE ev.op = "grow" /\ ev.a < n -> Unchanged(ev)
    [] ev.op = "grow" -> << <<ev.ok, "growth failed">> >> \o GrowClauses(ev, ev.a)
    [] ev.op = "setr" -> << <<ev.ok, "setting the radius failed">> >> \o Mutated(ev, n, base, k, kg, ev.a)
    [] ev.op = "setk" /\ ev.a > Tr.k0 -> Unchanged(ev)
    [] ev.op = "setk" -> << <<ev.ok, "setting the neighbour count failed">> >> \o Mutated(ev, n, base, ev.a, kg, r)
    [] ev.op = "query" -> Query(ev)
    [] ev.op = "conns" -> Conns(ev)
    [] ev.op = "reset" -> << <<ev.ok, "reset failed">>, <<ev.n = 0 /\ ev.V = <<>> /\ ev.E = <<>> /\ ev.S = <<>> /\ ev.nv = 0 /\ ev.ne = 0, "reset leaves something behind">> >>
    [] ev.op = "save" -> << <<ev.ok, "saving or reading failed">>, <<ev.E2 = G, "graph read back differs">>, <<ev.S2 = [i \in 1..n |-> base + i], "samples read back differ">> >>

(* each property looks at the calls it is about *)
Mut == {"grow", "setr", "setk"}
About(ev) ==
  CASE Tr.pid \in {"C01", "C02", "C03", "C04"} -> ev.op \in Mut \cup {"reset"}
    [] Tr.pid = "C05" -> ev.op = "query"
    [] Tr.pid = "C06" -> ev.op = "conns"
    [] OTHER -> TRUE
KeepClause(ev, c) ==
  CASE Tr.pid = "C07" -> ~(ev.op \in Mut /\ c[2] \in {"missing edge", "wrong edge", "edge length", "over-long or invalid edge"})
                         /\ ~(ev.op = "query" /\ c[2] \notin {"query failed", "more samples hurt"})
    [] OTHER -> TRUE
Verdict(ev) == IF ~About(ev) THEN "" ELSE FirstBad(SelectSeq(Clauses(ev), LAMBDA c : KeepClause(ev, c)))

Step ==
  /\ ~done /\ l < Len(Tr.ev)
  /\ LET ev == Tr.ev[l + 1]  bad == Verdict(ev) IN
     IF bad # ""
     THEN PrintT(ToJson([k |-> "V", t |-> tid, l |-> l + 1, c |-> bad, d |-> ev.op])) /\ done' = TRUE /\ UNCHANGED <<tid, l, n, base, k, kg, r, G, best>>
     ELSE /\ l' = l + 1 /\ UNCHANGED tid /\ done' = FALSE
          /\ CASE ~ev.ok -> UNCHANGED <<n, base, k, kg, r, G, best>>
               [] ev.op = "grow" -> /\ n' = ev.a /\ kg' = k /\ G' = ev.E /\ UNCHANGED <<base, k>>
                                    /\ r' = (IF Tr.kind = "nn" THEN IF Tr.trunc THEN CERT ELSE 0 ELSE r)
                                    /\ best' = (IF Tr.kind = "nn" THEN [q \in DOMAIN best |-> -1] ELSE best)
               [] ev.op = "setr" -> r' = ev.a /\ G' = ev.E /\ best' = [q \in DOMAIN best |-> -1] /\ UNCHANGED <<n, base, k, kg>>
               [] ev.op = "setk" -> k' = ev.a /\ G' = ev.E /\ best' = [q \in DOMAIN best |-> -1] /\ UNCHANGED <<n, base, kg, r>>
               [] ev.op = "query" -> best' = [best EXCEPT ![ev.q] = IF ev.d >= 0 THEN ev.d ELSE @] /\ UNCHANGED <<n, base, k, kg, r, G>>
               [] ev.op = "reset" -> /\ base' = base + n /\ n' = 0 /\ G' = <<>> /\ kg' = 0 /\ best' = [q \in DOMAIN best |-> -1]
                                     /\ r' = (IF Tr.kind = "nn" THEN 0 ELSE r) /\ UNCHANGED k
               [] OTHER -> UNCHANGED <<n, base, k, kg, r, G, best>>
Finish == /\ ~done /\ l = Len(Tr.ev) /\ PrintT(ToJson([k |-> "D", t |-> tid])) /\ done' = TRUE
          /\ UNCHANGED <<tid, l, n, base, k, kg, r, G, best>>
Next == Step \/ Finish
Spec == Init /\ [][Next]_vars
=============================================================================
