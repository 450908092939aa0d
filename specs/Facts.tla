-------------------------------- MODULE Facts --------------------------------
(* What the arm's initial facts must mean geometrically.  All but the last coordinate are horizontal.
   A sink s is an open box: outer box [lo, hi], wall and floor thickness t.  An object is a box with half extents h. *)
EXTENDS Integers, Sequences, FiniteSets, TLC
Near(a, b, e) == \A i \in DOMAIN a : a[i] - b[i] <= e /\ b[i] - a[i] <= e
Up(p) == Len(p)
Inside(p, h, s, e) == \A i \in 1..Up(p) - 1 : p[i] - h[i] >= s.lo[i] + s.t - e /\ p[i] + h[i] <= s.hi[i] - s.t + e
OnFloor(p, h, s, e, gap) == LET b == p[Up(p)] - h[Up(p)] IN b >= s.lo[Up(p)] + s.t - e /\ b <= s.lo[Up(p)] + s.t + gap
Above(p, h, s) == p[Up(p)] - h[Up(p)] >= s.hi[Up(p)]
OverSink(p, s) == \A i \in 1..Up(p) - 1 : p[i] >= s.lo[i] /\ p[i] <= s.hi[i]
(* an object's facts o = [sink, post, pre, half] given the sinks S; e: rounding, gap: how far above the floor it may rest *)
PostOk(o, S, e, gap) == Inside(o.post, o.half, S[o.sink], e) /\ OnFloor(o.post, o.half, S[o.sink], e, gap)
PreOk(o, S) == Above(o.pre, o.half, S[o.sink]) /\ OverSink(o.pre, S[o.sink])
Distinct(objs) == Cardinality({objs[i].sink : i \in DOMAIN objs}) = Len(objs)
=============================================================================
