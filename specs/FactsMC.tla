------------------------------- MODULE FactsMC -------------------------------
(* Sinks in a row (one horizontal coordinate and the height), objects of every size that fits, and the facts a generator may
   write down.  Honest: what the generator writes is accepted.  Sound: whatever facts are accepted -- also ones no generator
   wrote -- objects at their post-insert poses meet neither walls nor each other, and at its pre-insert pose an object meets no sink.
   Variants: "share" (all objects use the first sink), "rim" (pre-insert below the rim), "float" (post-insert at the rim). *)
EXTENDS Facts, Json, IOUtils
PR == ndJsonDeserialize(IOEnv.PARAMS)[1]
N == PR.n   Variant == PR.variant
T == 1   W == N + 2   H == 4
Sink(i) == [lo |-> <<(i - 1) * W, 0>>, hi |-> <<i * W, H>>, t |-> T]
S == <<Sink(1), Sink(2)>>
Parts(s) == << <<s.lo, <<s.lo[1] + T, s.hi[2]>>>>, <<<<s.hi[1] - T, s.lo[2]>>, s.hi>>, <<s.lo, <<s.hi[1], s.lo[2] + T>>>> >>
Meets(p, h, b) == \A i \in 1..2 : p[i] - h[i] < b[2][i] /\ p[i] + h[i] > b[1][i]
MeetsSink(p, h, s) == \E i \in 1..3 : Meets(p, h, Parts(s)[i])
VARIABLES objs, src
Half == {<<a, b>> : a \in 1..(N \div 2), b \in 1..2}
Built(h, i) == LET k == IF Variant = "share" THEN 1 ELSE i
                   c == S[k].lo[1] + W \div 2
                   z == IF Variant = "float" THEN H ELSE T IN
  [sink |-> k, half |-> h, post |-> <<c, z + h[2]>>, pre |-> <<c, (IF Variant = "rim" THEN H - 1 ELSE H) + h[2]>>]
Free(h, k) == [sink : {k}, half : {h}, post : {<<x, z>> : x \in 0..2*W, z \in 0..H}, pre : {<<x, z>> : x \in 0..2*W, z \in {0, H, H + 1, H + 2}}]
Ok(o) == PostOk(o, S, 0, 0) /\ PreOk(o, S)
Init == src \in {"built", "free"} /\ objs = <<>>
Next == /\ Len(objs) < 2 /\ UNCHANGED src
        /\ \E h \in Half : IF src = "built" THEN (W - 2) >= 2 * h[1] + (W % 2) /\ objs' = Append(objs, Built(h, Len(objs) + 1))
                           ELSE \E k \in 1..2 : \E o \in Free(h, k) : Ok(o) /\ Distinct(Append(objs, o)) /\ objs' = Append(objs, o)
Spec == Init /\ [][Next]_<<objs, src>>
Honest == src = "built" => Distinct(objs) /\ \A i \in DOMAIN objs : Ok(objs[i])
Sound == Distinct(objs) /\ (\A i \in DOMAIN objs : Ok(objs[i])) =>
  \A i \in DOMAIN objs : LET o == objs[i] IN
     /\ \A k \in 1..2 : ~MeetsSink(o.post, o.half, S[k])
     /\ ~MeetsSink(o.pre, o.half, S[o.sink])
     /\ \A j \in DOMAIN objs : j # i => ~Meets(o.post, o.half, <<<<objs[j].post[1] - objs[j].half[1], objs[j].post[2] - objs[j].half[2]>>, <<objs[j].post[1] + objs[j].half[1], objs[j].post[2] + objs[j].half[2]>>>>)
=============================================================================
