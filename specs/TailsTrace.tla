----------------------------- MODULE TailsTrace -----------------------------
(* Answers of the real tail bounds and closed forms.  Numbers as limbs; signed ones as <<sign, limbs>>. *)
EXTENDS Tails, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES tid, l
Tr == Traces[tid]
Num(v) == IF v[1] < 0 THEN <<<<>>, v[2], <<1>>>> ELSE <<v[2], <<>>, <<1>>>>
Bar(f, e) == BMulS(f[3], e)
TailC ==
  IF Tr.out # "ok" THEN << <<FALSE, "call failed">> >>
  ELSE LET m == Tr.m  k == Tr.k  a == Clip(Tr.a, Tr.b)  b == Tr.b
           named == TLCEval(CASE Tr.which \in {"hoeffding", "mean"} -> Hoeffding(m, k, a, b) [] Tr.which = "generic" -> Generic(m, k, a, b)
                              [] Tr.which = "kl" -> KL(m, k, a, b, TRUE) [] Tr.which = "alone" -> KL(m, k, a, b, FALSE))
           truth == TLCEval(IF m > 64 \/ k > m - 1 THEN <<<<>>, <<1>>, <<1>>>>
                            ELSE IF Tr.which = "alone" THEN LET t == Truth(m, k, a, b) IN <<t[1], BAdd(t[2], L2(m)), t[3]>> ELSE Truth(m, k, a, b))
           all(P(_)) == \A i \in DOMAIN Tr.ans : P(Num(Tr.ans[i]))
           sound(f) == LeBy(truth, f, 4 * Slack(m))
           notLoose(f) == LeBy(f, named, 4 * Slack(m))
           notTight(f) == LeBy(named, f, 4 * Slack(m)) IN
       << <<m > 64 \/ k > m - 1 \/ (~InRange(m, k, a, b) /\ Tr.which = "generic") \/ all(sound), "bound is below the probability it bounds">>,
          <<all(notLoose), "bound is looser than its inequality">>,
          <<(Tr.which = "generic" /\ ~InRange(m, k, a, b)) => all(notTight), "bound past the mean">> >>
CorC ==
  << <<Tr.out = "ok", "call failed">>,
     <<Tr.out = "ok" => BLe(Root2(Tr.m, Tr.k, 20, Tr.fn, Tr.fd), Gap2(Tr.m, Tr.k, Max2(0, Tr.a - 4), 20)), "radius larger than the corollary's">>,
     <<Tr.out = "ok" => BLe(Gap2(Tr.m, Tr.k, Tr.a + 4, 20), Root2(Tr.m, Tr.k, 20, Tr.fn, Tr.fd)), "radius smaller than the corollary's">>,
     <<(Tr.out = "ok" /\ Tr.m <= 40) => Within(Tr.m, Tr.k, Clip(Max2(0, Tr.a - 4), 20), 20, Tr.fn, Tr.fd), "radius fails more often than allowed">> >>
(* largest radius the tightest bound allows: sound, and a tolerance more is not allowed *)
SearchC ==
  LET lev == <<L2(Tr.fn), L2(Tr.fd), <<1>>>> IN
  << <<Tr.out = "ok", "call failed">>,
     <<(Tr.out = "ok" /\ Tr.m <= 40) => Within(Tr.m, Tr.k, Clip(Max2(0, Tr.a - 1), 20), 20, Tr.fn, Tr.fd), "radius fails more often than allowed">>,
     <<(Tr.out = "ok" /\ ~Tr.full /\ Tr.a2 + 2 < Pow2(20)) => ~LeBy(KL(Tr.m, Tr.k, Tr.a2 + 2, 20, TRUE), <<lev[1], BAdd(lev[2], OfInt(Slack(Tr.m))), <<1>>>>, 0), "a larger radius is allowed">> >>
NetC ==
  LET want == TLCEval(BAdd(Sets2(Tr.m, Tr.d + 1), BSub(L2(Tr.fd), L2(Tr.fn)))) IN
  << <<Tr.out = "ok", "call failed">>,
     <<Tr.out = "ok" => BLe(want, BAdd(Tr.ans, OfInt(4096))), "net radius too small for the failure probability">>,
     <<Tr.out = "ok" => BLe(Tr.ans, BAdd(want, OfInt(4096))), "a smaller net radius satisfies the bound">> >>
(* ans: the count times 2^42 *)
BlumerC ==
  LET a == Tr.a  b == Tr.b  v == Tr.d + 1
      need == TLCEval(BShift(BMax(BMulS(BSub(BAdd(U42(1), L2(Tr.fd)), L2(Tr.fn)), 4), BMulS(BSub(BAdd(L2(13), U42(b)), L2(a)), 8 * v)), b + 42))
      have == BMul(U42(1), BMulS(Tr.ans, a))
      e == BShift(OfInt(65536 * v), b + 42) IN
  << <<Tr.out = "ok", "call failed">>,
     <<Tr.out = "ok" => BLe(need, BAdd(have, e)) /\ BLe(have, BAdd(need, e)), "Blumer's count">>,
     <<Tr.out = "ok" => BLe(BShift(BMulS(BSub(BAdd(Sets2(Tr.count, v), L2(Tr.fd)), L2(Tr.fn)), 2), b), BAdd(BMul(U42(1), BMulS(Tr.count, a)), BShift(OfInt(4096), b))), "Blumer's count misses the failure probability">>,
     <<Tr.out = "ok" => BLe(Tr.searched, Tr.count), "the search asks for more samples than Blumer's bound">> >>
Clauses == CASE Tr.kind = "tail" -> TailC [] Tr.kind = "cor" -> CorC [] Tr.kind = "search" -> SearchC [] Tr.kind = "net" -> NetC [] Tr.kind = "blumer" -> BlumerC
Init == tid \in DOMAIN Traces /\ l = 0
Next == /\ l = 0 /\ l' = 1 /\ UNCHANGED tid
        /\ LET c == FirstBad(Clauses) IN
           IF c = "" THEN PrintT(ToJson([k |-> "D", t |-> tid])) ELSE PrintT(ToJson([k |-> "V", t |-> tid, l |-> 0, c |-> c, d |-> Tr.kind]))
Spec == Init /\ [][Next]_<<tid, l>>
==============================================================================
