------------------------------- MODULE TailsMC -------------------------------
(* Every small roadmap: the named inequalities really bound the exact binomial tail, Corollary 1's radius keeps its promise,
   and Blumer's count satisfies the Sauer-Shelah inequality.  Variants: known ways of getting them wrong. *)
EXTENDS Tails, Json, IOUtils
PR == ndJsonDeserialize(IOEnv.PARAMS)[1]
VARIABLES part, m, k, a, b, phase
vars == <<part, m, k, a, b, phase>>
Init == /\ phase = 0
        /\ \/ part = "tail" /\ b \in Range1(PR.bits) /\ m \in 2..PR.m /\ k \in 1..m /\ a \in 1..Pow2(b)
           \/ part = "cor" /\ b = 12 /\ m \in 2..PR.m /\ k \in 1..m - 1 /\ a \in Range1(PR.fails)                    \* gamma = 1 / a
           \/ part = "blumer" /\ b \in Range1(PR.bits) /\ m \in Range1(PR.fails) /\ k \in 2..PR.vc /\ a \in 1..Pow2(b)  \* gamma = 1 / m, rho = a / 2^b, k = VC dimension
           \/ part = "const" /\ m = 0 /\ k = 0 /\ a = 0 /\ b = 0
Next == phase = 0 /\ phase' = 1 /\ UNCHANGED <<part, m, k, a, b>>
Spec == Init /\ [][Next]_vars
V == PR.variant
Covers(f) == LeBy(Truth(m, k, a, b), f, Slack(m))
Bounds ==
  (part = "tail" /\ phase = 1) =>
    /\ k <= m - 1 => Covers(Hoeffding(m, k, a, b))
    /\ (k <= m - 1 /\ (InRange(m, k, a, b) \/ V = "range")) => Covers(Generic(m, k, a, b))
    /\ k <= m - 1 => Covers(IF V = "union" THEN KL(m, k, a, b, FALSE) ELSE KL(m, k, a, b, TRUE))
    (* the tighter one is tighter than the common one at the same threshold, never above log m *)
    /\ LeBy(KL(m, k, a, b, TRUE), <<L2(m), <<>>, <<1>>>>, Slack(m)) /\ LeBy(Hoeffding(m, k, a, b), <<L2(m), <<>>, <<1>>>>, Slack(m))
    (* they grow with the measure *)
    /\ a < Pow2(b) => LeBy(Hoeffding(m, k, a, b), Hoeffding(m, k, a + 1, b), 1) /\ LeBy(KL(m, k, a, b, TRUE), KL(m, k, a + 1, b, TRUE), Slack(m))
    /\ (a < Pow2(b) /\ InRange(m, k, a + 1, b)) => LeBy(Generic(m, k, a, b), Generic(m, k, a + 1, b), Slack(m))
(* the largest admissible measure, on a grid *)
RECURSIVE Last(_, _)
Last(lo, hi) == IF hi - lo <= 1 THEN lo ELSE LET c == (lo + hi) \div 2 IN
   IF BLe(Root2(m, k, b, 1, a), Gap2(m, k, c, b)) /\ c * (m - 1) <= k * Pow2(b) THEN Last(c, hi) ELSE Last(lo, c)
Corollary == (part = "cor" /\ phase = 1 /\ BLe(Root2(m, k, b, 1, a), Gap2(m, k, 0, b))) => Within(m, k, Last(0, ((k * Pow2(b)) \div (m - 1)) + 1), b, 1, a)
(* smallest count at or above Blumer's *)
RECURSIVE First(_, _, _)
First(lo, hi, w) == IF hi - lo <= 1 THEN hi ELSE LET c == (lo + hi) \div 2 IN IF BLe(w, BMulS(OfInt(a), c)) THEN First(lo, c, w) ELSE First(c, hi, w)
Blumer == (part = "blumer" /\ phase = 1) =>
   LET two == BMulS(BAdd(U42(1), L2(m)), 4)  thirteen == BMulS(BSub(BAdd(L2(13), U42(b)), L2(a)), 8 * k)
       want == TLCEval(BShift(BMax(two, thirteen), b))                       \* count * a, times 2^42
       c == (First(0, 65536, BAdd(SubSeq(want, 4, Len(want)), <<1>>)) \div (IF V = "short" THEN 4 ELSE 1)) + 1 IN
   BLe(BShift(BMulS(BAdd(Sets2(OfInt(c), k), L2(m)), 2), b), BAdd(BMul(U42(1), BMul(OfInt(c), OfInt(a))), BShift(OfInt(PR.eps), b)))
(* log2(e) = 1 / ln 2, ln 2 = sum of 1 / (i 2^i) *)
RECURSIVE Ln2(_, _)
Ln2(i, acc) == IF i > 60 THEN acc ELSE Ln2(i + 1, BAdd(acc, BDivS(BShift(<<1>>, 126 - i), i)))
Const == (part = "const" /\ phase = 1) => LET one == BMul(LOG2E, Ln2(1, <<>>)) IN
   BLe(one, BShift(<<1>>, 168)) /\ BLt(BShift(<<1>>, 168), BAdd(one, BShift(<<1>>, 127)))
==============================================================================
