-------------------------------- MODULE Tails --------------------------------
(* Concentration bounds for the number of samples in a ball.  m samples; a ball of measure p = a / 2^b around one of them holds
   Bin(m - 1, p) of the others; it fails when it holds k or more.  Logarithms to base two in units of 2^-42; a bound is a
   triple <<pos, neg, den>> standing for (pos - neg) / den. *)
EXTENDS Big
LOG2E == <<2784, 1893, 7253, 1>>                            \* log2(e)
RECURSIVE TailTo(_, _, _, _, _, _)
(* sum over j..n of C(n, j) a^j c^(n - j);  t = C(n, j) *)
TailTo(n, j, k, a, c, t) == IF j > n THEN <<>>
   ELSE BAdd(IF j < k THEN <<>> ELSE BMul(t, BMul(BPow(a, j), BPow(c, n - j))), TailTo(n, j + 1, k, a, c, BDivS(BMulS(t, n - j), j + 1)))
Tail2(n, k, a, b) == TailTo(n, 0, k, OfInt(a), OfInt(Pow2(b) - a), <<1>>)          \* times 2^(b n)
U42(x) == BShift(OfInt(x), 42)
ASSUME TLCSet(42, [x \in 1..64 |-> Trim(Log2(OfInt(x)))])                               \* a table, filled once
L2(x) == IF x <= 64 THEN TLCGet(42)[x] ELSE Trim(Log2(OfInt(x)))
LL(x, y) == BAdd(L2(x), L2(y))                                                     \* log2 of x y
Clip(a, b) == Min2(a, Pow2(b))
(* the truth: log2(m P[Bin >= k]);  tail not empty *)
Truth(m, k, a, b) == <<BAdd(L2(m), Log2(Tail2(m - 1, k, a, b))), BMul(U42(b), OfInt(m - 1)), <<1>>>>
(* Hoeffding: log m - 2 n t^2, t = max(k / n - p, 0) *)
Hoeffding(m, k, a, b) ==
  LET n == m - 1  u == BMulS(OfInt(Pow2(b)), k)  v == BMulS(OfInt(a), n)  t == IF BLe(u, v) THEN <<>> ELSE BSub(u, v) IN
  <<BShift(BMulS(L2(m), n), 2 * b), BMulS(BMul(BMul(t, t), LOG2E), 2), BShift(OfInt(n), 2 * b)>>
(* the common form of Chernoff's bound: log m - mu + k (1 + log(mu / k)), mu = n p; only for k >= mu *)
Generic(m, k, a, b) ==
  LET n == m - 1  na == BMulS(OfInt(a), n) IN
  <<BShift(BAdd(L2(m), BMulS(BAdd(LL(n, a), LOG2E), k)), b), BAdd(BShift(BMulS(BAdd(U42(b), L2(k)), k), b), BMul(na, LOG2E)), BShift(<<1>>, b)>>
InRange(m, k, a, b) == BLe(BMulS(OfInt(a), m - 1), BShift(OfInt(k), b))
(* Chernoff's bound in its tightest form: log m - n KL(max(k / m, p) || p) *)
KL(m, k, a, b, union) ==
  LET n == m - 1
      flat == BLe(BShift(OfInt(k), b), BMulS(OfInt(a), m))
      um == IF union THEN BMulS(L2(m), m) ELSE <<>> IN
  IF flat THEN <<um, <<>>, OfInt(m)>>
  ELSE <<BAdd(um, BMulS(BAdd(BMulS(LL(a, m), k), IF k = m THEN <<>> ELSE BMulS(LL(Pow2(b) - a, m), m - k)), n)),
         BMulS(BAdd(BMulS(BAdd(L2(k), U42(b)), k), IF k = m THEN <<>> ELSE BMulS(BAdd(L2(m - k), U42(b)), m - k)), n),
         OfInt(m)>>
(* f <= g + e, e in units of 2^-42 *)
LeBy(f1, g1, e) == LET f == TLCEval(f1)  g == TLCEval(g1) IN
   BLe(BAdd(BMul(f[1], g[3]), BMul(g[2], f[3])), BAdd(BAdd(BMul(g[1], f[3]), BMul(f[2], g[3])), BMul(BMul(OfInt(e), f[3]), g[3])))
Slack(m) == 64 * (m + 64)
(* Corollary 1: p = (k - sqrt(2 k ln(m / gamma))) / n, gamma = fn / fd.  k 2^b - n a against the root, squared *)
Root2(m, k, b, fn, fd) == BShift(BMulS(BSub(BAdd(L2(m), L2(fd)), L2(fn)), 2 * k), 2 * b)
Gap2(m, k, a, b) == LET u == BShift(OfInt(k), b)  v == BMulS(OfInt(a), m - 1)  t == IF BLe(u, v) THEN <<>> ELSE BSub(u, v) IN BMul(BMul(t, t), LOG2E)
(* m P[Bin >= k] <= gamma (with a little slack) *)
Within(m, k, a, b, fn, fd) == BLe(BMulS(BMulS(BMulS(Tail2(m - 1, k, a, b), m), fd), 1000), BShift(OfInt(fn * 1001), b * (m - 1)))
(* Sauer-Shelah: log2 of twice the number of hit sets, and the exponent rho m / 2 *)
Sets2(m, v) == BAdd(Log2(CombSum(BMulS(m, 2), v)), U42(1))
=============================================================================
