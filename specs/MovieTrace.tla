----------------------------- MODULE MovieTrace -----------------------------
(* Recorded films (kind "film", frame by frame) and motion queries with and without a film (kind "query"). *)
EXTENDS Movie, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES tid, l, b, bad
Tr == Traces[tid]
RECURSIVE FirstBad(_)
FirstBad(cs) == IF cs = <<>> THEN "" ELSE IF ~Head(cs)[1] THEN Head(cs)[2] ELSE FirstBad(Tail(cs))
Film == Tr.kind = "film"
Steps == IF Film /\ Tr.rc = "ok" THEN Len(Tr.frames) ELSE 0
N == Tr.n   L == Tr.legs   F == Tr.found
E == Rng(Tr.edges)
New(f) == [n |-> f.n, e |-> b.e \cup Rng(f.new), g |-> f.g, red |-> f.red]
Start == << <<Tr.rc = "ok", "the film or the query fails">>,
            <<Film /\ Tr.rc = "ok" => Len(Tr.frames) > 0, "an empty film">>,
            <<Tr.same, "filming changes the roadmap or the answer">>,
            <<~Film /\ Tr.rc = "ok" => Tr.files = 1, "not one film for the query">> >>
FrameC == LET f == Tr.frames[l]  c == New(f) IN <<
  <<f.first, "samples shown are not the first ones">>,
  <<True(c, N, E, L, F), "something is shown that is not there">>,
  <<f.fresh, "a connection is drawn twice">>,
  <<f.order, "legs out of order">>,
  <<f.part, "only a part turns red">>,
  <<Ordered(c, N, E), "shown before its turn">>,
  <<Grows(b, c, Tr.nb, Tr.eb), "more at once than asked for, or something vanishes">>,
  <<f.inside, "a sample outside the picture">>,
  <<l = Steps => Done(c, N, E, L, F), "the film ends before everything is shown">> >>
Init == tid \in DOMAIN Traces /\ l = 0 /\ b = Blank /\ bad = FALSE
Next == /\ ~bad /\ l <= Steps /\ l' = l + 1 /\ UNCHANGED tid
        /\ LET x == FirstBad(IF l = 0 THEN Start ELSE FrameC) IN
           /\ bad' = (x # "")
           /\ b' = IF l = 0 \/ x # "" THEN b ELSE New(Tr.frames[l])
           /\ IF x # "" THEN PrintT(ToJson([k |-> "V", t |-> tid, l |-> l, c |-> x, d |-> <<>>]))
              ELSE l < Steps \/ PrintT(ToJson([k |-> "D", t |-> tid, frames |-> Steps]))
Spec == Init /\ [][Next]_<<tid, l, b, bad>>
=============================================================================
