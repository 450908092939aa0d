----------------------------- MODULE BoundsTrace -----------------------------
(* Answers of the real searches and bounds.  Big numbers come as limbs. *)
EXTENDS Big, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES tid, l
Tr == Traces[tid]

(* a bound that rises up to `peak`, then falls; at or below the level from `cross` on; never: not at all *)
DoubleC ==
  LET want == BMax(<<2>>, BMax(Tr.peak, Tr.cross)) IN
  IF Tr.never \/ BLt(BShift(<<1>>, 1000), want) THEN << <<Tr.out = "OverflowError", "out of range not reported as overflow">> >>
  ELSE IF BLt(BShift(<<1>>, 990), want) THEN << <<Tr.out \in {"ok", "OverflowError"}, "call failed">> >>
  ELSE << <<Tr.out = "ok", "call failed">>, <<BLe(want, Tr.ans), "count is not sufficient">>, <<Tr.ans = want, "count is not the smallest">> >>
(* lb, ub, cross, tol, ans in units of 2^-26 *)
HalveC ==
  IF Tr.lb >= Tr.ub THEN << <<Tr.out = "raise", "malformed bracket accepted">> >>
  ELSE << <<Tr.out = "ok", "call failed">>,
          <<Tr.lb <= Tr.ans /\ Tr.ans <= Tr.ub, "radius outside the bracket">>,
          <<Tr.ans <= Tr.lb + 1 \/ Tr.ans <= Tr.cross + 2, "radius is not admissible">>,
          <<Min2(Tr.cross, Tr.ub) <= Tr.ans + Tr.tol + 2, "a larger radius is admissible">> >>

(* the linear scan: steps of tol from lb *)
LinearC ==
  IF Tr.out = "ok" THEN << <<Tr.lb <= Tr.ans /\ Tr.ans <= Tr.ub + 2, "radius outside the bracket">>,
                           <<Tr.ans <= Tr.lb + 1 \/ Tr.ans <= Tr.cross + 2, "radius is not admissible">>,
                           <<Tr.cross <= Tr.ans + Tr.tol + 2, "a larger radius is admissible">> >>
  ELSE << <<Tr.out = "ArithmeticError", "call failed">>, <<Tr.cross >= Tr.ub - 2, "gave up although a radius was found">> >>

(* volume of the unit ball: VN/VD * pi^(d div 2) *)
RECURSIVE Fact(_)
Fact(n) == IF n = 0 THEN 1 ELSE n * Fact(n - 1)
RECURSIVE OddFact(_)
OddFact(n) == IF n <= 1 THEN 1 ELSE n * OddFact(n - 2)
VN(d) == IF d % 2 = 0 THEN 1 ELSE Pow2(d \div 2 + 1)
VD(d) == IF d % 2 = 0 THEN Fact(d \div 2) ELSE OddFact(d)
PROBE == 4096                                               \* 2^-30, in units of 2^-42
NumericC ==
  LET d == Tr.d
      net == <<Tr.tn * Tr.cn, Tr.h * Tr.cd>>                \* radius of the net balls: alpha * clearance
      num == TLCEval(BMul(BMulS(OfInt(VN(d)), Tr.vd), BPow(OfInt(net[1]), d)))
      den == TLCEval(BMul(BMul(OfInt(VD(d)), OfInt(Tr.vn)), BPow(OfInt(net[2]), d)))
      k == d \div 2
      lev == TLCEval(BSub(Log2(OfInt(Tr.fd)), Log2(OfInt(Tr.fn))))                 \* -log2 of the failure probability
      scale == TLCEval(BShift(BMulS(den, 2), 140 * k))
      per == TLCEval(BShift(BMul(num, BPow(PI, k)), 42))
      (* g(m) = log2(2 * sums) - rho m / 2 - log2(failure), as a pair of a positive and a negative part *)
      pos(m) == BMul(BAdd(BAdd(Log2(CombSum(BMulS(m, 2), d + 1)), BShift(<<1>>, 42)), lev), scale)
      neg(m) == BMul(per, m)
      e == BMulS(scale, PROBE)
      m == Tr.ans
      p0 == TLCEval(pos(m)) n0 == TLCEval(neg(m))
      up == TLCEval(BAdd(m, <<1>>))  dn == TLCEval(BSub(m, <<1>>))
      p1 == TLCEval(pos(up)) n1 == TLCEval(neg(up))
      q == TLCEval(pos(dn)) r == TLCEval(neg(dn))
  IN << <<Tr.out = "ok", "call failed">>,
        <<BLe(<<2>>, m), "count below two">>,
        <<BLe(p0, BAdd(n0, e)), "count does not reach the success probability">>,
        <<BLe(BAdd(p1, n0), BAdd(BAdd(p0, n1), e)), "bound still rising at the count">>,
        <<m = <<2>> \/ BLt(r, BAdd(q, e)) \/ BLt(BAdd(q, n0), BAdd(BAdd(p0, r), e)), "a smaller count suffices">> >>
RadC == << <<Tr.out = "ok", "call failed">>,
           <<\A i \in DOMAIN Tr.ans : Abs(Tr.ans[i] * Tr.cd * Tr.h - 2000000 * Tr.cn * (Tr.tn + Tr.td)) <= Tr.cd * Tr.h * 2, "connection radius">> >>
CombC == << <<Tr.out = "ok", "call failed">>, <<Tr.ans = CombSum(BMulS(Tr.m, 2), Tr.v), "binomial sum">> >>
ChainC == << <<Tr.out = "ok", "call failed">>, <<\A i \in 1..Len(Tr.ans) - 1 : BLe(Tr.ans[i], Tr.ans[i + 1]), "not monotone in the " \o Tr.what>> >>
RefuseC == << <<Tr.out = "raise", "impossible success probability accepted">> >>
Clauses == CASE Tr.kind = "double" -> DoubleC [] Tr.kind = "halve" -> HalveC [] Tr.kind = "linear" -> LinearC [] Tr.kind = "numeric" -> NumericC [] Tr.kind = "rad" -> RadC
             [] Tr.kind = "comb" -> CombC [] Tr.kind = "chain" -> ChainC [] Tr.kind = "refuse" -> RefuseC
Init == tid \in DOMAIN Traces /\ l = 0
Next == /\ l = 0 /\ l' = 1 /\ UNCHANGED tid
        /\ LET b == FirstBad(Clauses) IN
           IF b = "" THEN PrintT(ToJson([k |-> "D", t |-> tid])) ELSE PrintT(ToJson([k |-> "V", t |-> tid, l |-> 0, c |-> b, d |-> Tr.kind]))
Spec == Init /\ [][Next]_<<tid, l>>
===============================================================================
