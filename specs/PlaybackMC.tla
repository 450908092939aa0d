----------------------------- MODULE PlaybackMC -----------------------------
(* A run: states a world, searches (which leaves the world anyhow), and shows the plan.  Objects 1..K; moves take an object that
   the plan's author believed to be at a place.  Wrong variants: "norestore" plays in the world the search left, "early" restores
   before searching, "hidden" plays without a viewer, "twice" plays the plan twice, "none" plays when nothing was found,
   "partial" restores only the first object. *)
EXTENDS Playback, Json, IOUtils
P == ndJsonDeserialize(IOEnv.PARAMS)[1]
K == P.k   N == P.n   V == P.variant
Objs == 1..K
Zero == [o \in Objs |-> 0]
Moves(m) == UNION {[1..j -> Objs \X {0, 1}] : j \in 1..m}
(* a sensible plan brings an object somewhere else *)
Sensible(p) == \A i \in DOMAIN p : After(SubSeq(p, 1, i - 1), Zero)[p[i][1]] # p[i][2]
VARIABLES pc, vis, found, plan, w, left, i, seen
vars == <<pc, vis, found, plan, w, left, i, seen>>
Init == /\ pc = "state" /\ vis \in BOOLEAN /\ found = FALSE /\ plan = <<>> /\ w = Zero /\ left = Zero /\ i = 0 /\ seen = <<>>
Search == /\ pc = "state" /\ pc' = "found" /\ UNCHANGED <<vis, i, seen>>
          /\ w' \in [Objs -> {0, 1, 2}] /\ left' = w'
          /\ \/ found' = FALSE /\ plan' = <<>>
             \/ found' = TRUE /\ \E p \in Moves(N) : Sensible(p) /\ plan' = p
Restore == /\ pc = "found" /\ pc' = "ready" /\ UNCHANGED <<vis, found, plan, i, seen, left>>
           /\ w' = CASE V \in {"norestore", "early"} -> w [] V = "partial" -> [w EXCEPT ![1] = 0] [] OTHER -> Zero
Play == /\ pc = "ready" /\ UNCHANGED <<vis, found, plan, left>>
        /\ LET go == Shown(vis \/ V = "hidden", found \/ V = "none")  last == (IF V = "twice" THEN 2 ELSE 1) * Len(plan) IN
           IF ~go \/ i = last THEN pc' = "over" /\ UNCHANGED <<w, i, seen>>
           ELSE LET m == plan[(i % Len(plan)) + 1]  was == After(SubSeq(plan, 1, i % Len(plan)), Zero)[m[1]] IN
                /\ i' = i + 1 /\ seen' = Append(seen, <<m[1], was, w[m[1]]>>) /\ UNCHANGED pc
                (* the gripper closes where the object is believed to be *)
                /\ w' = IF w[m[1]] = was THEN [w EXCEPT ![m[1]] = m[2]] ELSE w
Next == Search \/ Restore \/ Play
Spec == Init /\ [][Next]_vars
Grasps == \A k \in DOMAIN seen : seen[k][2] = seen[k][3]
Only == seen # <<>> => vis /\ found
Whole == pc = "over" /\ Shown(vis, found) => w = After(plan, Zero) /\ Len(seen) = Len(plan)
Scenario == pc = "over" /\ V = "ok" /\ P.emit => PrintT(ToJson([k |-> "S", vis |-> vis, found |-> found, plan |-> plan, left |-> [o \in Objs |-> left[o]]]))
=============================================================================
