---------------------------- MODULE CollideTrace ----------------------------
(* Recorded verdicts.  A line: kind, cases; a case: [x: geometry..., a: answers (0/1, 9: none)]. *)
EXTENDS Collide, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES tid, l
Tr == Traces[tid]
Mk(b) == [c |-> b[1], e |-> b[2], m |-> b[3], n |-> b[4]]
MkS(s) == [i \in DOMAIN s |-> Mk(s[i])]
Sub2(p, q) == [i \in DOMAIN p |-> p[i] - q[i]]
MustYes == CASE Tr.kind \in {"poly", "box"} -> {"meet"} [] OTHER -> {"accept"}
MustNo == CASE Tr.kind \in {"poly", "box"} -> {"apart"} [] OTHER -> {"refuse"}
Class(c) ==
  CASE Tr.kind = "poly" -> PolyClass(c.x[1], c.x[2])
    [] Tr.kind = "box" -> BoxClass(Mk(c.x[1]), Mk(c.x[2]))
    [] Tr.kind = "move2" -> PolyMotion(Shift(Tr.shape, c.x[1]), Tr.obs, Sub2(c.x[2], c.x[1]), Tr.step)
    [] Tr.kind = "move3" -> BoxMotion([c |-> c.x[1], e |-> Tr.e, m |-> Tr.m, n |-> Tr.n], MkS(Tr.obs), Sub2(c.x[2], c.x[1]), Tr.step)
    [] Tr.kind = "turn3" -> TurnMotion(Mk(c.x[1]), Mk(c.x[2]), MkS(Tr.obs))
Bad(c) ==
  LET a == Range1(c.a) k == Class(c) IN
  IF ~(a \subseteq {0, 1}) THEN "no answer"
  ELSE IF k \in MustYes /\ 0 \in a THEN (IF Tr.kind \in {"poly", "box"} THEN "overlap missed" ELSE "clear motion refused")
  ELSE IF k \in MustNo /\ 1 \in a THEN (IF Tr.kind \in {"poly", "box"} THEN "apart reported as overlapping" ELSE "colliding motion accepted")
  ELSE IF Tr.kind \in {"poly", "box"} /\ k # "touch" /\ Cardinality(a) > 1 THEN "answer depends on order or batch" ELSE ""
(* draws: lower and upper integer bounds of each coordinate; exact limits lo, hi per coordinate *)
BadDraw(d) == \E i \in DOMAIN Tr.lo : d[i][1] < Tr.lo[i] \/ d[i][2] > Tr.hi[i]
Spread(i) == LET xs == {d[i][1] : d \in Range1(Tr.draws)} w == Tr.hi[i] - Tr.lo[i] IN
               w = 0 \/ (MinS(xs) < Tr.lo[i] + w \div 4 + 1 /\ MaxS(xs) > Tr.hi[i] - w \div 4 - 2)
BadAt == IF Tr.kind = "draws" THEN LET bs == {i \in DOMAIN Tr.draws : BadDraw(Tr.draws[i])} IN IF bs = {} THEN 0 ELSE MinS(bs)
         ELSE LET bs == {i \in DOMAIN Tr.cases : Bad(Tr.cases[i]) # ""} IN IF bs = {} THEN 0 ELSE MinS(bs)
Tally(S) == Cardinality({i \in DOMAIN Tr.cases : Class(Tr.cases[i]) \in S})
Init == tid \in DOMAIN Traces /\ l = 0
Next == /\ l = 0 /\ l' = 1 /\ UNCHANGED tid
        /\ IF Tr.kind = "draws"
           THEN IF Tr.out # "ok" \/ Tr.draws = <<>> THEN PrintT(ToJson([k |-> "V", t |-> tid, l |-> 0, c |-> "no draws", d |-> Tr.out]))
                ELSE LET b == BadAt IN
                  IF b # 0 THEN PrintT(ToJson([k |-> "V", t |-> tid, l |-> b, c |-> "draw outside the bounding region", d |-> Tr.draws[b]]))
                  ELSE IF \E i \in DOMAIN Tr.lo : ~Spread(i) THEN PrintT(ToJson([k |-> "V", t |-> tid, l |-> 0, c |-> "draws do not spread over the bounding region", d |-> Tr.lo]))
                  ELSE PrintT(ToJson([k |-> "D", t |-> tid, draws |-> Len(Tr.draws)]))
           ELSE LET b == BadAt IN
             IF b = 0 THEN PrintT(ToJson([k |-> "D", t |-> tid, must |-> Tally(MustYes), mustnot |-> Tally(MustNo), either |-> Len(Tr.cases) - Tally(MustYes) - Tally(MustNo)]))
             ELSE PrintT(ToJson([k |-> "V", t |-> tid, l |-> b, c |-> Bad(Tr.cases[b]), d |-> Tr.cases[b]]))
Spec == Init /\ [][Next]_<<tid, l>>
==============================================================================
