----------------------------- MODULE WorldsTrace -----------------------------
(* Recorded worlds; lengths in hundredths of a millimetre (known up to one). *)
EXTENDS Worlds, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES tid, l, bad
Tr == Traces[tid]
Abs(x) == IF x < 0 THEN -x ELSE x
Near(a, b, e) == Abs(a - b) <= e
MaxS(s) == CHOOSE x \in {s[i] : i \in DOMAIN s} : \A i \in DOMAIN s : s[i] <= x
Left == RoomL(Tr.room, Tr.hall)
Right == RoomR(Tr.room, Tr.hall)
Mid(r) == <<(r[1][1] + r[2][1]) \div 2, (r[1][2] + r[2][2]) \div 2>>
(* shape number k of the list: crossing exactly when it fits, and never out *)
Fits(k) == LET h == <<Tr.hs[k], Tr.hs[k]>>  cuts == AllCuts(Tr.obs, h)  R == From(Tr.obs, h, cuts, Mid(Left)) IN
  << <<At(R, cuts, Mid(Left)) # {}, "the middle of a room is blocked">>,
     <<~Escapes(R, cuts), "the world has an opening">>,
     <<Reaches(R, cuts, Mid(Right)) = (2 * Tr.hs[k] < Tr.gap), IF 2 * Tr.hs[k] < Tr.gap THEN "the corridor is narrower than advertised" ELSE "the corridor is wider than advertised">> >>
Apart(p, a, q, b) == \/ Abs(p[1] - q[1]) > a + b \/ Abs(p[2] - q[2]) > a + b
                     \/ Dist2(<<p[1] \div 10, p[2] \div 10>>, <<q[1] \div 10, q[2] \div 10>>) >= ((a + b) \div 10) * ((a + b) \div 10)
(* a disc keeps off a box if its centre is further than the radius from the nearest point of the box *)
Clamp(x, lo, hi) == IF x < lo THEN lo ELSE IF x > hi THEN hi ELSE x
Off(p, r, b) == Apart(p, r, <<Clamp(p[1], Lo(b, <<0, 0>>, 1), Hi(b, <<0, 0>>, 1)), Clamp(p[2], Lo(b, <<0, 0>>, 2), Hi(b, <<0, 0>>, 2))>>, 0)
Placed(ps, room) == /\ \A i \in DOMAIN ps : Within(room, ps[i], Tr.radii[i] - 1) /\ \A k \in DOMAIN Tr.obs : Off(ps[i], Tr.radii[i], Tr.obs[k])
                    /\ \A i, j \in DOMAIN ps : i < j => Apart(ps[i], Tr.radii[i], ps[j], Tr.radii[j])
ManipC == <<
  <<Len(Tr.radii) = Tr.n /\ Len(Tr.init) = Tr.n /\ Len(Tr.goal) = Tr.n, "not as many objects as asked for">>,
  <<\A i \in DOMAIN Tr.radii : Tr.radii[i] >= Tr.robot - 1 /\ Tr.radii[i] <= MaxS(Tr.radii), "an object smaller than the robot">>,
  <<\A i \in DOMAIN Tr.radii : Near(Tr.radii[i], Tr.said[i], 1), "an object's recorded size is not its size">>,
  <<Near(Tr.gap, 2 * MaxS(Tr.radii) + Tr.dd, 3), "the gap is not the largest object plus the clearance">>,
  <<Near(MaxS(Tr.radii), Tr.robot + 10000, 2), "no object of the largest size">>,
  <<Placed(Tr.init, Right), "an object does not start free in the far room">>,
  <<Placed(Tr.goal, Left), "an object's goal is not free in the near room">>,
  <<Tr.now = Tr.init, "objects do not stand where the problem says">>,
  <<Near(Tr.start[1], Mid(Left)[1], 1) /\ Near(Tr.start[2], Mid(Left)[2], 1) /\ Tr.there, "the robot does not start in the middle of the near room">> >>
HallC == <<
  <<Near(Tr.gap, 2 * Tr.robot + Tr.dd, 3), "the gap is not the robot plus the clearance">>,
  <<Near(Tr.start[1], Mid(Left)[1], 1) /\ Near(Tr.start[2], Mid(Left)[2], 1) /\ Tr.there, "the robot does not start in the middle of the near room">>,
  <<Near(Tr.end[1], Mid(Right)[1], 1) /\ Near(Tr.end[2], Mid(Right)[2], 1), "the goal is not the middle of the far room">> >>
CornerC == LET h == <<Tr.robot, Tr.robot>>  cuts == AllCuts(Tr.obs, h)  R == From(Tr.obs, h, cuts, Tr.start) IN
  << <<Tr.there /\ At(R, cuts, Tr.start) # {}, "the robot starts in collision">>, <<Reaches(R, cuts, Tr.end), "the goal cannot be reached">>, <<~Escapes(R, cuts), "the world has an opening">> >>
ScatterC == <<
  <<Len(Tr.boxes) = Tr.n, "not as many obstacles as asked for">>,
  <<\A i, j \in DOMAIN Tr.boxes : i < j => \E a \in 1..2 : Abs(Tr.boxes[i][1][a] - Tr.boxes[j][1][a]) >= Tr.boxes[i][2][a] + Tr.boxes[j][2][a], "obstacles overlap">>,
  <<\A i \in DOMAIN Tr.boxes : \A k \in DOMAIN Tr.keep : \E a \in 1..2 : Abs(Tr.boxes[i][1][a] - Tr.keep[k][1][a]) >= Tr.boxes[i][2][a] + Tr.keep[k][2][a], "an obstacle on the robot's start or goal">>,
  <<\A i \in DOMAIN Tr.boxes : \A a \in 1..2 : Abs(Tr.boxes[i][1][a]) + Tr.boxes[i][2][a] <= 250001, "an obstacle off the floor">>,
  <<Tr.there, "the robot does not stand at its start, or a helper body is left behind">> >>
(* hollow boxes: every point of a cell decomposition by all faces is solid exactly when it should be *)
Z3 == <<0, 0, 0>>
SCuts == [a \in 1..3 |-> LET lo == IF a = 3 THEN 0 ELSE -(Tr.dims[a] \div 2)  hi == lo + Tr.dims[a] IN Cuts(Tr.parts, Z3, a, {lo, lo + Tr.t, hi - Tr.t, hi})]
(* cells thinner than the resolution are rounding *)
Thick(cuts, c) == \A a \in 1..3 : cuts[a][c[a] + 1] - cuts[a][c[a]] > 3
MidOf(cuts, c) == [a \in 1..3 |-> (cuts[a][c[a]] + cuts[a][c[a] + 1]) \div 2]
InBox(p) == \A a \in 1..3 : LET lo == IF a = 3 THEN 0 ELSE -(Tr.dims[a] \div 2) IN p[a] >= lo /\ p[a] <= lo + Tr.dims[a]
HollowC == LET cuts == SCuts  F == FreeCells(Tr.parts, Z3, cuts) IN
  << <<\A c \in Cells(cuts) : Thick(cuts, c) => (c \notin F) = (InBox(MidOf(cuts, c)) /\ Solid({<<Tr.faces[i][1], Tr.faces[i][2]>> : i \in DOMAIN Tr.faces}, Tr.dims, Tr.t, MidOf(cuts, c))), "walls and floor are not those of the box">>,
     <<Tr.same, "the obstacles handed to the planner are not the walls of the body">> >>
SameBox(a, b, e) == \A k \in 1..2 : \A i \in 1..3 : Near(a[k][i], b[k][i], e)
Rng(s) == {s[i] : i \in DOMAIN s}
BoxApart(a, b, axes) == \E i \in axes : Abs(a[1][i] - b[1][i]) >= a[2][i] + b[2][i] - 3
LoadC == <<
  <<Len(Tr.bins) = 8 /\ Len(Tr.objs) = 8 /\ Len(Tr.bobs) = 8, "not eight objects and eight sinks">>,
  <<\A i \in DOMAIN Tr.bins : Len(Tr.bins[i]) = Len(Tr.bobs[i]) /\ \A k \in DOMAIN Tr.bins[i] : SameBox(Tr.bins[i][k], Tr.bobs[i][k], 2), "a sink's obstacles are not where its walls are">>,
  <<\A i \in DOMAIN Tr.outer : Near(2 * Tr.outer[i][2][1], 6000 + Tr.gap, 4) /\ Near(2 * Tr.outer[i][2][2], 6000 + Tr.gap, 4), "a sink is not as wide as the widest object plus the gap">>,
  <<\A i, j \in DOMAIN Tr.outer : i < j => BoxApart(Tr.outer[i], Tr.outer[j], {1, 2}), "two sinks overlap">>,
  <<\A i \in DOMAIN Tr.floors : Near(Tr.floors[i][1][3] - Tr.floors[i][2][3], 0, 2) /\ Near(2 * Tr.floors[i][2][3], 1000, 2), "the placement link of a sink is not its floor">>,
  <<\E i \in DOMAIN Tr.objs : Near(2 * Tr.objs[i][2][1], 6000, 2), "no object of the largest width">>,
  <<\A i \in DOMAIN Tr.objs : 2 * Tr.objs[i][2][1] <= 6002 /\ 2 * Tr.objs[i][2][2] <= 6002, "an object wider than the widest">>,
  <<Tr.clear, "objects overlap each other or the furniture">>,
  <<\A i \in DOMAIN Tr.objs : /\ \A a \in 1..2 : Tr.aabbs[i][1][a] - Tr.aabbs[i][2][a] >= Tr.stove[1][a] - Tr.stove[2][a] - 2 /\ Tr.aabbs[i][1][a] + Tr.aabbs[i][2][a] <= Tr.stove[1][a] + Tr.stove[2][a] + 2
                              /\ LET z == Tr.aabbs[i][1][3] - Tr.aabbs[i][2][3] - Tr.stove[1][3] - Tr.stove[2][3] IN z >= -2 /\ z <= 500, "an object does not stand on the stove">>,
  <<Tr.roles, "bodies are misnamed, or fixed bodies are not the stove and the sinks">> >>
RECURSIVE FirstBad(_)
FirstBad(cs) == IF cs = <<>> THEN "" ELSE IF ~Head(cs)[1] THEN Head(cs)[2] ELSE FirstBad(Tail(cs))
Head1 == CASE Tr.kind = "manip" -> ManipC [] Tr.kind = "hall" -> HallC [] Tr.kind = "corner" -> CornerC [] Tr.kind = "scatter" -> ScatterC
           [] Tr.kind = "hollow" -> HollowC [] OTHER -> LoadC
Steps == IF Tr.rc = "ok" /\ Tr.kind \in {"manip", "hall"} THEN Len(Tr.hs) ELSE 0
Init == tid \in DOMAIN Traces /\ l = 0 /\ bad = FALSE
Next == /\ ~bad /\ l <= Steps
        /\ LET b == IF Tr.rc # "ok" THEN "no world was built" ELSE FirstBad(IF l = 0 THEN Head1 ELSE Fits(l)) IN
           /\ bad' = (b # "")
           /\ (b # "" => PrintT(ToJson([k |-> "V", t |-> tid, l |-> l, c |-> b, d |-> <<>>])))
           /\ (b = "" /\ l = Steps => PrintT(ToJson([k |-> "D", t |-> tid, shapes |-> Steps])))
        /\ l' = l + 1 /\ UNCHANGED tid
Spec == Init /\ [][Next]_<<tid, l, bad>>
=============================================================================
