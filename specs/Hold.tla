-------------------------------- MODULE Hold --------------------------------
(* Rigid poses with quarter turns [p, m]; grasps, placements and the tool pose asked of inverse kinematics. *)
EXTENDS Integers, Sequences, FiniteSets, TLC
Row(m, v) == m[1] * v[1] + m[2] * v[2] + m[3] * v[3]
App(m, v) == [i \in 1..3 |-> Row(m[i], v)]
Col(m, j) == [i \in 1..3 |-> m[i][j]]
MM(a, b) == [i \in 1..3 |-> [j \in 1..3 |-> Row(a[i], Col(b, j))]]
Tr3(m) == [i \in 1..3 |-> Col(m, i)]
Plus(a, b) == [i \in 1..3 |-> a[i] + b[i]]
Mul(a, b) == [p |-> Plus(a.p, App(a.m, b.p)), m |-> MM(a.m, b.m)]
Inv(a) == [p |-> App(Tr3(a.m), [i \in 1..3 |-> -a.p[i]]), m |-> Tr3(a.m)]
Id3 == <<<<1, 0, 0>>, <<0, 1, 0>>, <<0, 0, 1>>>>
Turn(k) == CASE (k % 4) = 0 -> Id3 [] (k % 4) = 1 -> <<<<0, -1, 0>>, <<1, 0, 0>>, <<0, 0, 1>>>>
             [] (k % 4) = 2 -> <<<<-1, 0, 0>>, <<0, -1, 0>>, <<0, 0, 1>>>> [] OTHER -> <<<<0, 1, 0>>, <<-1, 0, 0>>, <<0, 0, 1>>>>
Down == <<<<-1, 0, 0>>, <<0, 1, 0>>, <<0, 0, -1>>>>
AbsI(x) == IF x < 0 THEN -x ELSE x
(* ---- grasps: g is the object's pose in the tool's frame; the object has half extents h, its middle is at mid in its own frame ----
   The tool closes along its y axis: the object's side there may not be wider than the tool opens. *)
Across(g, h) == IF AbsI(g.m[2][1]) = 1 THEN 2 * h[1] ELSE 2 * h[2]
Grip(g, h, mid, open, depth) ==
  /\ Col(g.m, 3) = <<0, 0, -1>>                                  \* approached from above
  /\ Plus(g.p, App(g.m, mid)) = <<0, 0, h[3] - depth>>           \* the tool is centred on the object's top, `depth' into it
  /\ Across(g, h) <= open
Ways(h, mid, depth) == {LET m == MM(Turn(k), Down) IN [m |-> m, p |-> Plus(<<0, 0, h[3] - depth>>, App(m, [i \in 1..3 |-> -mid[i]]))] : k \in 0..3}
Grips(h, mid, open, depth) == {g \in Ways(h, mid, depth) : Grip(g, h, mid, open, depth)}
Opposite(a, b) == MM(Turn(2), a.m) = b.m
Range(s) == {s[i] : i \in DOMAIN s}
GraspsOK(gs, under, h, mid, open, depth) ==
  LET G == Grips(h, mid, open, depth) IN
  /\ Cardinality(Range(gs)) = Len(gs) /\ Range(gs) \subseteq G
  /\ IF under THEN Range(gs) = G ELSE /\ 2 * Len(gs) = Cardinality(G)
                                      /\ \A a, b \in Range(gs) : ~Opposite(a, b)
(* the tool pose from which an object at `pose' is approached with grasp g *)
Target(pose, g, approach) == Mul(approach, Mul(pose, Inv(g)))
(* attempts: what each would give: "none", "hit", "ok"; the answer is an attempt's number, 0 none *)
FirstOk(a) == IF \E i \in DOMAIN a : a[i] = "ok" THEN CHOOSE i \in DOMAIN a : a[i] = "ok" /\ \A j \in 1..i - 1 : a[j] # "ok" ELSE 0
(* ---- placements: an object of half extents h standing on the box [lo, hi], turned by k quarters about its middle ---- *)
Foot(h, k) == IF (k % 2) = 0 THEN <<h[1], h[2]>> ELSE <<h[2], h[1]>>
Mid(lo, hi, i) == (lo[i] + hi[i]) \div 2
FitsOn(h, k, lo, hi) == \A i \in 1..2 : 2 * Foot(h, k)[i] <= hi[i] - lo[i]
(* obstacles are boxes [c, h]; gap: how far above the surface an object is put *)
Clash(h, k, lo, hi, gap, o, strict) ==
  \A i \in 1..3 : LET c == IF i = 3 THEN hi[3] + gap + h[3] ELSE Mid(lo, hi, i)
                      e == IF i = 3 THEN h[3] ELSE Foot(h, k)[i]
                      d == AbsI(c - o[1][i]) IN IF strict THEN d < e + o[2][i] ELSE d <= e + o[2][i]
Must(h, lo, hi, gap, obs) == {k \in 0..3 : FitsOn(h, k, lo, hi) /\ \A o \in Range(obs) : ~Clash(h, k, lo, hi, gap, o, FALSE)}
May(h, lo, hi, gap, obs) == {k \in 0..3 : FitsOn(h, k, lo, hi) /\ \A o \in Range(obs) : ~Clash(h, k, lo, hi, gap, o, TRUE)}
=============================================================================
