--------------------------------- MODULE Fix ---------------------------------
(* Integer and fixed-point helpers shared by the specifications. *)
EXTENDS Integers, Sequences, FiniteSets, TLC
Abs(x) == IF x < 0 THEN -x ELSE x
Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a > b THEN a ELSE b
MinS(S) == CHOOSE x \in S : \A y \in S : x <= y
MaxS(S) == CHOOSE x \in S : \A y \in S : x >= y
Range1(s) == {s[i] : i \in DOMAIN s}

RECURSIVE SumTo(_, _)
SumTo(s, i) == IF i = 0 THEN 0 ELSE s[i] + SumTo(s, i - 1)
SumSeq(s) == SumTo(s, Len(s))
RECURSIVE SumSet(_, _)
SumSet(f(_), S) == IF S = {} THEN 0 ELSE LET x == CHOOSE x \in S : TRUE IN f(x) + SumSet(f, S \ {x})

(* floor of the square root, by bisection: lo^2 <= x < hi^2 *)
RECURSIVE IsqrtIn(_, _, _)
IsqrtIn(x, lo, hi) == IF hi - lo <= 1 THEN lo
                      ELSE LET m == (lo + hi) \div 2 IN IF m * m <= x THEN IsqrtIn(x, m, hi) ELSE IsqrtIn(x, lo, m)
Isqrt(x) == IsqrtIn(x, 0, Min2(x + 1, 46341))
(* 1000 * sqrt(d2), rounded down; d2 <= 10^6: 1000 a + b with a = Isqrt(d2) and the largest b that keeps the square below *)
RECURSIVE MilliRest(_, _, _, _)
MilliRest(a, rest, lo, hi) == IF hi - lo <= 1 THEN lo
                              ELSE LET m == (lo + hi) \div 2 IN
                                   IF 2000 * a * m + m * m <= rest THEN MilliRest(a, rest, m, hi) ELSE MilliRest(a, rest, lo, m)
Milli(d2) == LET a == Isqrt(d2) IN 1000 * a + MilliRest(a, (d2 - a * a) * 1000000, 0, 1000)
(* first clause of a sequence of <<holds, name>> pairs that does not hold, or "" *)
RECURSIVE FirstBad(_)
FirstBad(cs) == IF cs = <<>> THEN "" ELSE IF Head(cs)[1] THEN FirstBad(Tail(cs)) ELSE Head(cs)[2]
==============================================================================
