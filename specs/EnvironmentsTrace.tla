-------------------------- MODULE EnvironmentsTrace --------------------------
(* Records of the real environments.  kind: "struct" (maze corridor), "clear" (wall distances), "curve", "dist" (distance
   to the path), "hist" (where samples fell: a histogram over unit cells), "streams" (interleaved draws). *)
EXTENDS Environments, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES tid, l
Tr == Traces[tid]
E == Tr.e
Sub(c, a, b) == [i \in 1..b - a + 1 |-> c[a + i - 1]]
Near(a, b, t) == Len(a) = Len(b) /\ \A j \in DOMAIN a : Abs(a[j] - b[j]) <= t
D == E.dim

(* ------------------------------- maze structure ------------------------------- *)
Struct ==
  LET m == TLCEval(Maze(E.dim, E.len))  n == Len(m) IN <<
  <<Tr.out = "ok", "environment could not be built or used">>,
  <<Tr.nodes = <<>> \/ IsCorridor(Tr.nodes, E.dim, E.len), "not a single unbranched corridor through every cube">>,
  <<Tr.nodes = <<>> \/ {<<x[1], x[2]>> : x \in Range1(Tr.edges)} = {<<Tr.nodes[i], Tr.nodes[i + 1]>> : i \in 1..n - 1}, "open walls are not those between consecutive cubes">>,
  <<Near(Tr.start, [j \in 1..D |-> 500], 1), "start point">>,
  (* behaviour: motions between neighbouring cube centres; every cube has the openings of a corridor *)
  <<\A x \in Range1(Tr.adj) : x[3] = x[4], "opening depends on direction">>,
  <<\A x \in Range1(Tr.adj) : x[3] \in {0, 1}, "no answer">>,
  <<Tr.adj = <<>> \/ LET op == {{x[1], x[2]} : x \in {y \in Range1(Tr.adj) : y[3] = 1}} IN
                     op = {{m[i], m[i + 1]} : i \in 1..n - 1}, "open walls are not those of the corridor">>,
  <<Near(Tr.end, [j \in 1..D |-> 1000 * m[n][j] + 500], 1), "end point">> >>

(* ------------------------------- tables ------------------------------- *)
ClearOk(m, c) ==
  LET x == Sub(c, 1, D) IN
  \E i \in DOMAIN m : /\ \A j \in 1..D : m[i][j] * E.S <= x[j] /\ x[j] <= (m[i][j] + 1) * E.S
                      /\ Abs(c[D + 1] - 1000 * MazeClearance(m, i, E.S, E.W, x)) <= 1
CurveOk(m, c) == Len(c) = D + 1 /\ Near(Sub(c, 2, D + 1), CurvePoint(E, m, c[1]), 2)
DistOk(m, c) == Len(c) = D + 1 /\ Abs(c[D + 1] - Milli(PathDist2(E, Sub(c, 1, D)))) <= 2
FirstCase(ok(_, _)) == LET m == TLCEval(MazeOf(E))  bs == {i \in DOMAIN Tr.cases : ~ok(m, Tr.cases[i])} IN IF bs = {} THEN 0 ELSE MinS(bs)
TableClauses(ok(_, _), name) == << <<Tr.out = "ok", "call failed">>, <<FirstCase(ok) = 0, name>> >>

(* ------------------------------- histogram ------------------------------- *)
Tol(x) == 6 * Isqrt(x) + 7
Fits(cnt, vol, total, n) ==     \* count against its expectation; n * vol is kept small by dividing early
  LET ex == (n \div total) * vol + ((n % total) * vol) \div total IN Abs(cnt - ex) <= Tol(ex)
RECURSIVE CountTo(_, _, _)
CountTo(cs, T(_), i) == IF i = 0 THEN 0 ELSE (IF T(cs[i]) THEN cs[i][D + 1] ELSE 0) + CountTo(cs, T, i - 1)
Count(cs, T(_)) == CountTo(cs, T, Len(cs))
All(c) == TRUE
Hist ==
  LET bs == TLCEval(SelectSeq(Boxes(E), LAMBDA b : Cells(b) > 0))  tot == Volume(bs)  n == Tr.n
      cs == Tr.cells
      in(i) == SelectSeq(cs, LAMBDA c : CellIn(bs[i], Sub(c, 1, D)))
      parts == TLCEval([i \in DOMAIN bs |-> in(i)])
      side(i, j) == bs[i][2][j] - bs[i][1][j]
      slabs(i, j) == \A v \in bs[i][1][j]..bs[i][2][j] - 1 :
          Fits(Count(parts[i], LAMBDA c : c[j] = v), Cells(bs[i]) \div side(i, j), tot, n)
      lowhalf(i, j, c) == c[j] < bs[i][1][j] + side(i, j) \div 2
      quad(i, j, k) == Fits(Count(parts[i], LAMBDA c : lowhalf(i, j, c) /\ lowhalf(i, k, c)),
                            (Cells(bs[i]) \div (side(i, j) * side(i, k))) * (side(i, j) \div 2) * (side(i, k) \div 2), tot, n)
  IN << <<Tr.out = "ok", "call failed">>,
        <<Count(cs, All) = n, "samples lost">>,
        <<SumSeq([i \in DOMAIN bs |-> Count(parts[i], All)]) = n, "sample outside the free space">>,
        <<Tr.vol = -1 \/ Abs(Tr.vol - 1000 * tot) <= 1 + tot \div 100, "volume">>,
        <<\A i \in DOMAIN bs : Fits(Count(parts[i], All), Cells(bs[i]), tot, n), "region not in proportion to its volume">>,
        <<\A i \in DOMAIN bs : \A j \in 1..D : slabs(i, j), "not uniform inside a region">>,
        <<\A i \in DOMAIN bs : \A j \in 1..D : \A k \in j + 1..D : quad(i, j, k), "coordinates are not independent">> >>

(* ------------------------------- streams ------------------------------- *)
(* events <<op, object, seed, digest>>; the i-th draw after creation is a function of the seed and of i only *)
Streams ==
  LET ev == Tr.ev
      born(i) == MaxS({0} \cup {j \in 1..i : ev[j][1] = "make" /\ ev[j][2] = ev[i][2]})
      pos(i) == Cardinality({j \in born(i)..i : ev[j][1] = "draw" /\ ev[j][2] = ev[i][2]})
      draws == TLCEval({<<ev[born(i)][3], pos(i), ev[i][4]>> : i \in {i \in DOMAIN ev : ev[i][1] = "draw"}})
      keys == {<<x[1], x[2]>> : x \in draws}
      firsts == {<<x[1], x[3]>> : x \in {y \in draws : y[2] = 1}}
  IN << <<Tr.out = "ok", "call failed">>,
        <<Cardinality(keys) = Cardinality(draws), "draw does not depend on the object's own seed and draws alone">>,
        <<Cardinality({f[2] : f \in firsts}) = Cardinality({f[1] : f \in firsts}), "the seed is ignored">>,
        <<Cardinality({<<x[1], x[3]>> : x \in draws}) = Cardinality(keys), "draws repeat">> >>

Clauses == CASE Tr.kind = "struct" -> Struct
             [] Tr.kind = "clear" -> TableClauses(ClearOk, "wall distance")
             [] Tr.kind = "curve" -> TableClauses(CurveOk, "point of the curve") \o << <<Tr.length = CurveLen(E), "advertised length">> >>
             [] Tr.kind = "dist" -> TableClauses(DistOk, "distance to the path")
             [] Tr.kind = "hist" -> Hist
             [] Tr.kind = "streams" -> Streams
Where == CASE Tr.kind = "clear" -> FirstCase(ClearOk) [] Tr.kind = "curve" -> FirstCase(CurveOk) [] Tr.kind = "dist" -> FirstCase(DistOk) [] OTHER -> 0
Init == tid \in DOMAIN Traces /\ l = 0
Next == /\ l = 0 /\ l' = 1 /\ UNCHANGED tid
        /\ LET b == FirstBad(Clauses) IN
           IF b = "" THEN PrintT(ToJson([k |-> "D", t |-> tid]))
           ELSE PrintT(ToJson([k |-> "V", t |-> tid, l |-> Where, c |-> b, d |-> IF Where = 0 THEN <<>> ELSE Tr.cases[Where]]))
Spec == Init /\ [][Next]_<<tid, l>>
===============================================================================
