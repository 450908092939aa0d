------------------------------ MODULE BoundsMC ------------------------------
(* (1) the two searches as algorithms, over every small instance: they terminate and return what the definition says;
   (2) the big-number arithmetic against TLC's own on small numbers, logarithms by their laws, pi by Machin's series. *)
EXTENDS Big, Json, IOUtils
PR == ndJsonDeserialize(IOEnv.PARAMS)[1]
VARIABLES part, peak, cross, cap, lb, ub, phase, x, y
vars == <<part, peak, cross, cap, lb, ub, phase, x, y>>
N == PR.n
(* a bound that rises strictly up to `peak`, then falls strictly; at or below the allowed level from `cross` on *)
F(m) == IF m >= peak THEN cross - 1 - m ELSE cross - 1 - peak - (peak - m)         \* allowed level: -1
Ok(m) == F(m) <= -1 /\ F(m) >= F(m + 1)
G(r) == r - cross                                                                   \* allowed level: 0, grows
Init == \/ part = "double" /\ peak \in 1..N /\ cross \in 1..N /\ cap \in {4, 8, 64} /\ lb = 1 /\ ub = 2 /\ phase = "up" /\ x = 0 /\ y = 0
        \/ part = "halve" /\ peak = 0 /\ cross \in -2..PR.r /\ cap \in 1..PR.tol /\ lb \in 0..PR.r \div 2 /\ ub \in 0..PR.r /\ lb < ub /\ x = lb /\ y = ub /\ phase = "cut"
        \/ part = "big" /\ peak = 0 /\ cross = 0 /\ cap = 0 /\ lb = 0 /\ ub = 0 /\ phase = "cut" /\ x \in Range1(PR.xs) /\ y \in Range1(PR.xs)
Up == /\ part = "double" /\ phase = "up"
      /\ IF Ok(ub) THEN phase' = "cut" /\ UNCHANGED ub ELSE ub' = 2 * ub /\ phase' = IF 2 * ub > cap THEN "overflow" ELSE "up"
      /\ UNCHANGED <<part, peak, cross, cap, lb, x, y>>
Cut == /\ part = "double" /\ phase = "cut"
       /\ IF ub = lb + 1 THEN phase' = "end" /\ UNCHANGED <<lb, ub>>
          ELSE LET m == (lb + ub) \div 2 IN
               /\ UNCHANGED phase
               /\ IF (IF PR.variant = "level" THEN F(m) <= -1 ELSE Ok(m)) THEN ub' = m /\ UNCHANGED lb ELSE lb' = m /\ UNCHANGED ub
       /\ UNCHANGED <<part, peak, cross, cap, x, y>>
(* radii in units of half the tolerance step; the midpoint is rounded down *)
HCut == /\ part = "halve" /\ phase = "cut"
        /\ IF ub - lb <= cap THEN phase' = "end" /\ UNCHANGED <<lb, ub>>
           ELSE LET m == (lb + ub) \div 2 IN
                /\ UNCHANGED phase
                /\ IF G(m) > 0 THEN ub' = m /\ UNCHANGED lb ELSE lb' = m /\ UNCHANGED ub
        /\ UNCHANGED <<part, peak, cross, cap, x, y>>
Arith == part = "big" /\ phase = "cut" /\ phase' = "end" /\ UNCHANGED <<part, peak, cross, cap, lb, ub, x, y>>
Next == Arith \/ Up \/ Cut \/ HCut
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Terminates == <>(phase \in {"end", "overflow"})
Smallest == MaxS({2, peak, cross})
DoubleRight == part = "double" => /\ phase = "end" => ub = Smallest /\ Ok(ub) /\ \A m \in 2..ub - 1 : ~Ok(m)
                                  /\ phase = "overflow" => Smallest > cap \div 2
HalveRight == (part = "halve" /\ phase = "end") =>
   /\ x <= lb /\ lb <= y
   /\ lb = x \/ G(lb) <= 0
   /\ \A r \in x..y : r > lb + cap => G(r) > 0
b(n) == OfInt(n)
Near(u, v, t) == LET d == IF BLe(u, v) THEN BSub(v, u) ELSE BSub(u, v) IN BLe(d, OfInt(t))
RECURSIVE ToNat(_, _)
ToNat(a, i) == IF i > Len(a) THEN 0 ELSE a[i] + B * ToNat(a, i + 1)
BigRight == (part = "big" /\ phase = "end") =>
   /\ ToNat(BAdd(b(x), b(y)), 1) = x + y
   /\ BMul(b(x), b(y)) = (IF x <= 40000 /\ y <= 40000 THEN b(x * y) ELSE BMul(b(y), b(x)))
   /\ BCmp(b(x), b(y)) = (IF x < y THEN -1 ELSE IF x > y THEN 1 ELSE 0)
   /\ x >= y => BSub(b(x), b(y)) = b(x - y)
   /\ (y > 0 /\ y <= 100000) => BDivS(b(x), y) = b(x \div y) /\ BDivS(BMul(b(x), b(y)), y) = b(x)
   /\ (x > 0 /\ y > 0) => Near(Log2(BMul(b(x), b(y))), BAdd(Log2(b(x)), Log2(b(y))), 64)
   /\ (x < y) => x = 0 \/ BLt(Log2(b(x)), Log2(b(y)))
   /\ x < 1000 => /\ Log2(BShift(b(1), x)) = BShift(b(x), 42)
                  /\ BShift(BShift(b(y), x), 14) = <<0>> \o BShift(b(y), x) \/ y = 0
   /\ x <= 14 => CombSum(b(x), x) = b(Pow2(x))
RECURSIVE Atan(_, _, _, _, _)
Atan(q, t, n, s, sg) == IF t = <<>> THEN s ELSE LET t2 == BDivS(t, q * q) d == BDivS(t2, n) IN
    Atan(q, t2, n + 2, IF sg < 0 THEN BSub(s, d) ELSE BAdd(s, d), -sg)
At(q) == LET t == BDivS(BShift(<<1>>, 182), q) IN Atan(q, t, 3, t, -1)
PiRight == (part = "big" /\ phase = "end" /\ x = 0 /\ y = 0) => Near(BShift(PI, 42), BMulS(BSub(BMulS(At(5), 4), At(239)), 4), 2000000000 \div 2) \/ Near(PI, SubSeq(BMulS(BSub(BMulS(At(5), 4), At(239)), 4), 4, 14), 1)
===============================================================================
