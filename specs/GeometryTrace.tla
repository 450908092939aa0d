---------------------------- MODULE GeometryTrace ----------------------------
(* Tables of answers recorded from the real code.  One line: kind, parameters, cases; a case is
   [coordinates..., answers...].  All answers of a case must be equal and must not contradict the class. *)
EXTENDS Geometry, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES tid, l
Tr == Traces[tid]
Sub(c, a, b) == [i \in 1..b - a + 1 |-> c[a + i - 1]]

Class(c) ==
  CASE Tr.kind = "seg" -> SegClass(Pt(c[1], c[2]), Pt(c[3], c[4]), Pt(c[5], c[6]), Pt(c[7], c[8]))
    [] Tr.kind = "narrow" -> NarrowClass(Sub(c, 1, Tr.dim), Sub(c, Tr.dim + 1, 2 * Tr.dim), Tr.H, Tr.C)
    [] Tr.kind = "tube" -> TubeClass(Sub(c, 1, Tr.dim), Sub(c, Tr.dim + 1, 2 * Tr.dim), Tr.L, Tr.C)
    [] Tr.kind = "maze" -> MazeClass(Maze(Tr.dim, Tr.len), Tr.S, Tr.W, Sub(c, 1, Tr.dim), Sub(c, Tr.dim + 1, 2 * Tr.dim))
NC == IF Tr.kind = "seg" THEN 8 ELSE 2 * Tr.dim
Bad(c) ==
  LET a == {c[i] : i \in NC + 1..Len(c)}  k == Class(c)
      yes == CASE Tr.kind = "seg" -> "intersection missed" [] OTHER -> "free motion refused"
      no == CASE Tr.kind = "seg" -> "reported as intersecting" [] OTHER -> "colliding motion accepted"
  IN IF a \cap {0, 1} # a THEN "no answer"
     ELSE IF k = "in" /\ 0 \in a THEN yes
     ELSE IF k = "out" /\ 1 \in a THEN no
     ELSE IF Tr.kind # "maze" /\ Cardinality(a) > 1 THEN "answer depends on order or batch" ELSE ""
BadAt == LET bs == {i \in DOMAIN Tr.cases : Bad(Tr.cases[i]) # ""} IN IF bs = {} THEN 0 ELSE MinS(bs)
Tally(k) == Cardinality({i \in DOMAIN Tr.cases : Class(Tr.cases[i]) = k})
Init == tid \in DOMAIN Traces /\ l = 0
Next == /\ l = 0 /\ l' = 1 /\ UNCHANGED tid
        /\ LET b == BadAt IN
           IF b = 0 THEN PrintT(ToJson([k |-> "D", t |-> tid, must |-> Tally("in"), mustnot |-> Tally("out"), either |-> Tally("touch")]))
           ELSE PrintT(ToJson([k |-> "V", t |-> tid, l |-> b, c |-> Bad(Tr.cases[b]), d |-> Tr.cases[b]]))
Spec == Init /\ [][Next]_<<tid, l>>
=============================================================================
