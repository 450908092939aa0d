---------------------------- MODULE PolygonsTrace ----------------------------
(* Draws of the real sampler.  kind "cells": cells (the region), hist <<x, y, count>>; kind "rings": parts, K (scale of the
   recorded points), pts; kind "streams": <<draw number, seed, polygon, digest>>. *)
EXTENDS Polygons, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES tid, l
Tr == Traces[tid]
Tol(x) == 6 * Isqrt(x) + 7
Fits(cnt, vol, total, n) ==
  LET ex == (n \div total) * vol + ((n % total) * vol) \div total IN Abs(cnt - ex) <= Tol(ex)
CellsC ==
  LET S == TLCEval(Range1(Tr.cells))  H == Tr.hist  n == Tr.n
      cnt(T) == SumSeq([i \in DOMAIN H |-> IF <<H[i][1], H[i][2]>> \in T THEN H[i][3] ELSE 0]) IN
  << <<Tr.out = "ok", "call failed">>,
     <<\A i \in DOMAIN H : <<H[i][1], H[i][2]>> \in S, "point outside the region or in a hole">>,
     <<cnt(S) = n, "draws lost">>,
     <<\A p \in PartsOf(S) : Fits(cnt(p), Cardinality(p), Cardinality(S), n), "part not drawn by its area">>,
     <<\A c \in S : Fits(cnt({c}), 1, Cardinality(S), n), "not uniform">>,
     <<\A q \in 1..4 : Fits(Tr.quad[q], 1, 4, n), "not uniform inside the unit cells">> >>
Scale(R) == [i \in DOMAIN R |-> <<R[i][1] * Tr.K, R[i][2] * Tr.K>>]
RingsC ==
  LET ps == TLCEval([i \in DOMAIN Tr.parts |-> [ext |-> Scale(Tr.parts[i].ext), holes |-> [j \in DOMAIN Tr.parts[i].holes |-> Scale(Tr.parts[i].holes[j])]]])
      area == TLCEval([i \in DOMAIN Tr.parts |-> PartArea2(Tr.parts[i])])
      home(x) == {i \in DOMAIN ps : InPart(ps[i], x)}
      near(x) == {i \in DOMAIN ps : NearPart(ps[i], x, 2)}
      hs == TLCEval([k \in DOMAIN Tr.pts |-> home(Tr.pts[k])])
      cnt(i) == Cardinality({k \in DOMAIN hs : i \in hs[k]})
  IN << <<Tr.out = "ok", "call failed">>,
        <<\A k \in DOMAIN hs : hs[k] # {} \/ near(Tr.pts[k]) # {}, "point outside the polygon or in a hole">>,
        <<\A i \in DOMAIN ps : Fits(cnt(i), area[i], SumSeq(area), Len(Tr.pts)), "part not drawn by its area">> >>
StreamsC ==
  LET D == Range1(Tr.ev) IN
  << <<Tr.out = "ok", "call failed">>,
     <<Cardinality({<<x[1], x[2], x[3]>> : x \in D}) = Cardinality({<<x[1], x[2], x[3], x[4]>> : x \in D}), "draws are not determined by the generator passed in">>,
     <<Cardinality({<<x[1], x[2]>> : x \in {y \in D : y[3] = 1}}) = Cardinality({x[4] : x \in {y \in D : y[3] = 1}}), "the generator is ignored">> >>
Clauses == CASE Tr.kind = "cells" -> CellsC [] Tr.kind = "rings" -> RingsC [] Tr.kind = "streams" -> StreamsC
Init == tid \in DOMAIN Traces /\ l = 0
Next == /\ l = 0 /\ l' = 1 /\ UNCHANGED tid
        /\ LET b == FirstBad(Clauses) IN
           IF b = "" THEN PrintT(ToJson([k |-> "D", t |-> tid])) ELSE PrintT(ToJson([k |-> "V", t |-> tid, l |-> 0, c |-> b, d |-> Tr.kind]))
Spec == Init /\ [][Next]_<<tid, l>>
===============================================================================
