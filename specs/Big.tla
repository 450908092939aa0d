--------------------------------- MODULE Big ---------------------------------
(* Natural numbers of any size: little-endian sequences of limbs base 2^14, no leading (trailing in the sequence) zeros. *)
EXTENDS Fix
B == 16384
RECURSIVE Trim(_)
Trim(a) == IF a = <<>> \/ a[Len(a)] # 0 THEN a ELSE Trim(SubSeq(a, 1, Len(a) - 1))
RECURSIVE OfInt(_)
OfInt(n) == IF n = 0 THEN <<>> ELSE <<n % B>> \o OfInt(n \div B)
Limb(a, i) == IF i <= Len(a) THEN a[i] ELSE 0
RECURSIVE AddAt(_, _, _, _, _)
AddAt(a, b, i, c, acc) == IF i > Len(a) /\ i > Len(b) THEN (IF c = 0 THEN acc ELSE Append(acc, c))
                          ELSE LET s == Limb(a, i) + Limb(b, i) + c IN AddAt(a, b, i + 1, s \div B, Append(acc, s % B))
BAdd(a, b) == AddAt(a, b, 1, 0, <<>>)
RECURSIVE SubAt(_, _, _, _, _)
SubAt(a, b, i, c, acc) == IF i > Len(a) THEN acc
                          ELSE LET s == a[i] - Limb(b, i) - c IN SubAt(a, b, i + 1, IF s < 0 THEN 1 ELSE 0, Append(acc, IF s < 0 THEN s + B ELSE s))
BSub(a, b) == Trim(SubAt(a, b, 1, 0, <<>>))              \* a >= b
RECURSIVE CmpAt(_, _, _)
CmpAt(a, b, i) == IF i = 0 THEN 0 ELSE IF a[i] < b[i] THEN -1 ELSE IF a[i] > b[i] THEN 1 ELSE CmpAt(a, b, i - 1)
BCmp(a, b) == IF Len(a) < Len(b) THEN -1 ELSE IF Len(a) > Len(b) THEN 1 ELSE CmpAt(a, b, Len(a))
BLe(a, b) == BCmp(a, b) <= 0
BLt(a, b) == BCmp(a, b) < 0
BMax(a, b) == IF BLe(a, b) THEN b ELSE a
(* times a limb-sized number *)
RECURSIVE MulSAt(_, _, _, _, _)
MulSAt(a, s, i, c, acc) == IF i > Len(a) THEN (IF c = 0 THEN acc ELSE Append(acc, c))
                           ELSE LET v == a[i] * s + c IN MulSAt(a, s, i + 1, v \div B, Append(acc, v % B))
BMulS(a, s) == IF s = 0 THEN <<>> ELSE MulSAt(a, s, 1, 0, <<>>)
Zeros(n) == [i \in 1..n |-> 0]
RECURSIVE MulAt(_, _, _, _)
MulAt(a, b, j, acc) == IF j > Len(b) THEN acc ELSE MulAt(a, b, j + 1, IF b[j] = 0 THEN acc ELSE BAdd(acc, Zeros(j - 1) \o BMulS(a, b[j])))
BMul(a, b) == IF a = <<>> \/ b = <<>> THEN <<>> ELSE MulAt(a, b, 1, <<>>)
RECURSIVE BPow(_, _)
BPow(a, n) == IF n = 0 THEN <<1>> ELSE BMul(a, BPow(a, n - 1))
(* divided by a small number (at most 2^17), rounded down *)
RECURSIVE DivSAt(_, _, _, _, _)
DivSAt(a, s, i, r, acc) == IF i = 0 THEN acc ELSE LET v == r * B + a[i] IN DivSAt(a, s, i - 1, v % s, <<v \div s>> \o acc)
BDivS(a, s) == Trim(DivSAt(a, s, Len(a), 0, <<>>))
RECURSIVE Pow2(_)
Pow2(n) == IF n = 0 THEN 1 ELSE 2 * Pow2(n - 1)
BShift(a, n) == BMulS(Zeros(n \div 14) \o a, Pow2(n % 14))     \* a * 2^n

(* log2(a) * 2^42, rounded down to about 2^-40:  a = x * 2^(14 (L-1)), 1 <= x < 2^14; then repeated squaring *)
PF == 8                                                   \* fractional limbs kept
Fr(a) == IF Len(a) > PF THEN SubSeq(a, Len(a) - PF, Len(a)) ELSE Zeros(PF + 1 - Len(a)) \o a     \* PF fractional limbs, one integral
RECURSIVE Halve(_, _)
Halve(x, e) == IF x[PF + 1] < 2 THEN <<x, e>> ELSE LET y == DivSAt(x, 2, PF + 1, 0, <<>>) IN Halve(y, e + 1)
RECURSIVE Bits(_, _, _)
Bits(x, k, acc) == IF k = 0 THEN acc
  ELSE LET s == BMul(x, x)  y == SubSeq(s, PF + 1, 2 * PF + 1) IN      \* still PF fractional limbs, value in [1, 4)
       IF y[PF + 1] >= 2 THEN Bits(DivSAt(y, 2, PF + 1, 0, <<>>), k - 1, Append(acc, 1)) ELSE Bits(y, k - 1, Append(acc, 0))
RECURSIVE BitVal(_, _, _)
BitVal(bs, i, acc) == IF i > Len(bs) THEN acc ELSE BitVal(bs, i + 1, BAdd(BMulS(acc, 2), OfInt(bs[i])))
Log2(a) == LET h == Halve(Fr(a), 14 * (Len(a) - 1))  bs == Bits(h[1], 42, <<>>) IN BAdd(BShift(OfInt(h[2]), 42), BitVal(bs, 1, <<>>))

(* pi * 2^140 *)
PI == <<2624, 7377, 880, 10424, 12696, 13508, 8968, 8726, 13992, 2319, 3>>
(* sums of binomial coefficients  C(n, 0) + ... + C(n, v),  n a big number *)
RECURSIVE CombTo(_, _, _, _, _)
CombTo(n, v, i, c, acc) == IF i > v THEN acc
  ELSE LET c2 == IF BLt(n, OfInt(i)) THEN <<>> ELSE BDivS(BMul(c, BSub(n, OfInt(i - 1))), i) IN CombTo(n, v, i + 1, c2, BAdd(acc, c2))
CombSum(n, v) == CombTo(n, v, 1, <<1>>, <<1>>)
==============================================================================
