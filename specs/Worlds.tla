------------------------------- MODULE Worlds -------------------------------
(* Worlds of axis-parallel boxes.  Which points can an axis-parallel shape reach?  Space is cut at every face of the boxes
   grown by the shape; within one cell nothing changes, so moving from cell to cell through open faces is exact.
   A box is <<centre, half extents>>; all in whole units. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt
Dim(B) == Len(B[1][1])
Lo(b, h, a) == b[1][a] - b[2][a] - h[a]
Hi(b, h, a) == b[1][a] + b[2][a] + h[a]
Cuts(B, h, a, extra) == LET s == UNION {{Lo(B[i], h, a), Hi(B[i], h, a)} : i \in DOMAIN B} \cup extra
                            lo == CHOOSE x \in s : \A y \in s : x <= y
                            hi == CHOOSE x \in s : \A y \in s : x >= y
                        IN SetToSortSeq(s \cup {lo - 1000, hi + 1000}, <)
Covers(b, h, c, cuts) == \A a \in DOMAIN c : Lo(b, h, a) <= cuts[a][c[a]] /\ Hi(b, h, a) >= cuts[a][c[a] + 1]
Cells(cuts) == IF Len(cuts) = 2 THEN {<<i, j>> : i \in 1..Len(cuts[1])-1, j \in 1..Len(cuts[2])-1}
               ELSE {<<i, j, k>> : i \in 1..Len(cuts[1])-1, j \in 1..Len(cuts[2])-1, k \in 1..Len(cuts[3])-1}
FreeCells(B, h, cuts) == {c \in Cells(cuts) : \A i \in DOMAIN B : ~Covers(B[i], h, c, cuts)}
Beside(c) == UNION {{[c EXCEPT ![a] = @ + 1], [c EXCEPT ![a] = @ - 1]} : a \in DOMAIN c}
RECURSIVE Spread(_, _, _)
Spread(F, done, front) == IF front = {} THEN done
  ELSE LET nx == (UNION {Beside(c) : c \in front} \cap F) \ done IN Spread(F, done \cup nx, nx)
At(F, cuts, p) == {c \in F : \A a \in DOMAIN c : cuts[a][c[a]] <= p[a] /\ p[a] <= cuts[a][c[a] + 1]}
AllCuts(B, h) == [a \in 1..Dim(B) |-> Cuts(B, h, a, {})]
(* the cells a shape can reach from p *)
From(B, h, cuts, p) == LET F == FreeCells(B, h, cuts)  s == At(F, cuts, p) IN Spread(F, s, s)
Reaches(R, cuts, q) == At(R, cuts, q) # {}
(* out of the world altogether *)
Escapes(R, cuts) == \E c \in R : \E a \in DOMAIN c : c[a] = 1 \/ c[a] = Len(cuts[a]) - 1

(* two square rooms, a straight corridor between them; lower left corner of the left room at (-hall/2 - room, 0) *)
RoomL(room, hall) == <<<<-(hall \div 2) - room, 0>>, <<-(hall \div 2), room>>>>
RoomR(room, hall) == <<<<hall \div 2, 0>>, <<(hall \div 2) + room, room>>>>
Within(r, p, m) == \A a \in 1..2 : r[1][a] + m <= p[a] /\ p[a] <= r[2][a] - m
Dist2(p, q) == (p[1] - q[1]) * (p[1] - q[1]) + (p[2] - q[2]) * (p[2] - q[2])
(* hollow boxes: faces as <<axis, sign>>; solid exactly within t of a present face *)
Solid(faces, dims, t, p) == \E f \in faces : LET lo == IF f[1] = 3 THEN 0 ELSE -(dims[f[1]] \div 2)  hi == lo + dims[f[1]] IN
                              IF f[2] = 1 THEN p[f[1]] >= hi - t ELSE p[f[1]] <= lo + t
=============================================================================
