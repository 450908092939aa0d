------------------------------- MODULE Motion -------------------------------
(* What a motion stream must ask of the joint-space planner, whatever the simulator's state was before the call.
   A call c = [kind, c1, c2, held, fl (sequence of <<object, pose>>), bad (a fluent of another predicate), teleport, coll].
   The world w = [conf, at] as it is when the planner is asked; the request r = [to, obs (set), att (set of held objects)].  *)
EXTENDS Integers, Sequences, FiniteSets, TLC
Rng(s) == {s[i] : i \in DOMAIN s}
Objects(c) == {f[1] : f \in Rng(c.fl)}
Refused(c) == c.bad /\ ~c.teleport
Asks(c) == ~c.teleport /\ ~c.bad
Obstacles(c, fixed) == IF c.coll THEN Rng(fixed) \cup Objects(c) ELSE {}
Carried(c) == IF c.held = "" THEN {} ELSE {c.held}
From(c, w) == w.conf = c.c1
There(c, w) == \A f \in Rng(c.fl) : w.at[f[1]] = f[2]
To(c, r) == r.to = c.c2
Avoids(c, r, fixed) == r.obs = Obstacles(c, fixed)
Holds(c, r) == r.att = Carried(c)
RequestOK(c, w, r, fixed) == From(c, w) /\ There(c, w) /\ To(c, r) /\ Avoids(c, r, fixed) /\ Holds(c, r)
(* the answer: nothing when the planner finds nothing, otherwise the planner's path (or the two ends) *)
Answer(c, path) == IF c.teleport THEN <<c.c1, c.c2>> ELSE path

(* ---- a carried or standing object in the way of a command ----
   parts: sequence of [way (sequence of points), att (sequence of <<object, offset>>)]; half extents h[x], "r" the robot. *)
Lap(p, h, q, g, strict) == \A i \in DOMAIN p : LET d == IF p[i] > q[i] THEN p[i] - q[i] ELSE q[i] - p[i] IN IF strict THEN d < h[i] + g[i] ELSE d <= h[i] + g[i]
Add(p, q) == [i \in DOMAIN p |-> p[i] + q[i]]
Movers(part) == {<<"r", [i \in 1..2 |-> 0]>>} \cup {<<a[1], a[2]>> : a \in Rng(part.att)}
Moved(parts) == {m[1] : m \in UNION {Movers(parts[i]) : i \in DOMAIN parts}}
Hits(parts, h, b, pose, strict) ==
  b \notin Moved(parts) /\ \E i \in DOMAIN parts : \E w \in Rng(parts[i].way) : \E m \in Movers(parts[i]) : Lap(Add(w, m[2]), h[m[1]], pose, h[b], strict)
=============================================================================
