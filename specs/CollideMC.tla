------------------------------ MODULE CollideMC ------------------------------
(* The verdicts of Collide against independent definitions on small lattices. *)
EXTENDS Collide, Json, IOUtils
PR == ndJsonDeserialize(IOEnv.PARAMS)[1]
N == PR.n
K == PR.k
Grid == {Pt(x, y) : x \in 0..N, y \in 0..N}
ConvexCCW(P) == \A i \in DOMAIN P : Cross(P[i], P[(i % Len(P)) + 1], P[((i + 1) % Len(P)) + 1]) > 0
Polys == TLCEval({p \in {<<a, b, c>> : a \in {Pt(0, 0), Pt(1, 0), Pt(2, 1)}, b \in Grid, c \in Grid} : ConvexCCW(p)}
                 \cup {p \in {<<Pt(0, 1), b, c, d>> : b \in Grid, c \in Grid, d \in Grid} : ConvexCCW(p)})
Scale(P) == [i \in DOMAIN P |-> Pt(P[i][1] * K, P[i][2] * K)]
In2(P, x, strict) == \A i \in DOMAIN P : LET s == Cross(P[i], P[(i % Len(P)) + 1], x) IN IF strict THEN s > 0 ELSE s >= 0
Rots == <<[m |-> <<<<1, 0, 0>>, <<0, 1, 0>>, <<0, 0, 1>>>>, n |-> 1], [m |-> <<<<3, 4, 0>>, <<-4, 3, 0>>, <<0, 0, 5>>>>, n |-> 5],
          [m |-> <<<<1, 2, 2>>, <<2, 1, -2>>, <<-2, 2, -1>>>>, n |-> 3], [m |-> <<<<5, 0, 0>>, <<0, 3, 4>>, <<0, -4, 3>>>>, n |-> 5]>>
Box(c, e, r) == [c |-> c, e |-> e, m |-> Rots[r].m, n |-> Rots[r].n]
Es == {<<1, 1, 1>>, <<1, 2, 1>>, <<2, 1, 3>>}
In3(b, x, k, strict) == \A i \in 1..3 : LET s == Abs(Dot(b.m[i], [j \in 1..3 |-> x[j] - k * b.c[j]])) IN
                          IF strict THEN s < k * b.n * b.e[i] ELSE s <= k * b.n * b.e[i]
VARIABLES part, a, b, v, done
vars == <<part, a, b, v, done>>
Init == \/ "poly" \in Range1(PR.parts) /\ part = "poly" /\ a \in Polys /\ b \in {Shift(p, u) : p \in Polys, u \in {<<0, 0>>, <<1, 1>>, <<2, -1>>}} /\ v = <<0, 0>> /\ done = 0
        \/ "box" \in Range1(PR.parts) /\ part = "box" /\ a \in {Box(<<0, 0, 0>>, e, r) : e \in Es, r \in 1..4}
           /\ b \in {Box(c, e, r) : c \in {<<x, y, z>> : x \in 0..4, y \in {-3, -1, 0, 2}, z \in {0, 1, 3}}, e \in Es, r \in 1..4} /\ v = <<0, 0, 0>> /\ done = 0
        \/ "move" \in Range1(PR.parts) /\ part = "move" /\ a \in Polys /\ b \in {Shift(p, <<2, 1>>) : p \in Polys}
           /\ v \in {<<4, 0>>, <<3, 2>>, <<-1, 3>>, <<0, 0>>} /\ done = 0
        \/ "fly" \in Range1(PR.parts) /\ part = "fly" /\ a \in {Box(<<0, 0, 0>>, e, r) : e \in Es, r \in {1, 2}}
           /\ b \in {Box(<<x, y, 1>>, e, r) : x \in {0, 3, 5}, y \in {-3, 0}, e \in Es, r \in 1..4} /\ v \in {<<6, 0, 0>>, <<4, -2, 3>>, <<0, 0, 5>>} /\ done = 0
Next == done = 0 /\ done' = 1 /\ UNCHANGED <<part, a, b, v>>
Spec == Init /\ [][Next]_vars
Edge(P, i) == <<P[i], P[(i % Len(P)) + 1]>>
(* closed polygons share a point exactly when borders cross or touch, or one contains a corner of the other *)
ClosedMeet == \/ \E i \in DOMAIN a, j \in DOMAIN b : SegClass(Edge(a, i)[1], Edge(a, i)[2], Edge(b, j)[1], Edge(b, j)[2]) # "out"
              \/ \E i \in DOMAIN a : In2(b, a[i], FALSE)
              \/ \E j \in DOMAIN b : In2(a, b[j], FALSE)
Inner == LET x0 == MinS({b[i][1] : i \in DOMAIN b}) x1 == MaxS({b[i][1] : i \in DOMAIN b})
             y0 == MinS({b[i][2] : i \in DOMAIN b}) y1 == MaxS({b[i][2] : i \in DOMAIN b})
         IN \E x \in x0 * K..x1 * K, y \in y0 * K..y1 * K : In2(Scale(a), Pt(x, y), TRUE) /\ In2(Scale(b), Pt(x, y), TRUE)
Variant(c) == IF PR.variant = "aonly" THEN
                LET far(n) == ProjHi(a, n) < ProjLo(b, n) \/ ProjHi(b, n) < ProjLo(a, n) IN IF \E n \in Normals(a) : far(n) THEN "apart" ELSE "meet"
              ELSE c
PolyRight == (done = 1 /\ part = "poly") =>
  LET c == Variant(PolyClass(a, b)) IN /\ (c = "apart") = ~ClosedMeet /\ (c = "meet") = Inner /\ PolyClass(b, a) = PolyClass(a, b)
BoxRight == (done = 1 /\ part = "box") =>
  LET c == BoxClass(a, b)
      pts == {<<x, y, z>> : x \in -4 * 2..4 * 2, y \in -4 * 2..4 * 2, z \in -4 * 2..4 * 2}
  IN /\ c = BoxClass(b, a)
     /\ (c = "apart" => \A x \in pts : ~(In3(a, x, 2, FALSE) /\ In3(b, x, 2, FALSE)))
     /\ (c = "touch" => \A x \in pts : ~(In3(a, x, 2, TRUE) /\ In3(b, x, 2, TRUE)))
Q == 24
WindowRight == (done = 1 /\ part = "move") =>
  LET wo == PolyWindow(a, b, v, TRUE) wc == PolyWindow(a, b, v, FALSE) IN
  \A t \in 0..Q : LET A == [i \in DOMAIN a |-> Pt(a[i][1] * Q + t * v[1], a[i][2] * Q + t * v[2])]
                      B == [i \in DOMAIN b |-> Pt(b[i][1] * Q, b[i][2] * Q)] c == PolyClass(A, B) IN
     /\ (c = "meet") = (Lt(wo[1], <<t, Q>>) /\ Lt(<<t, Q>>, wo[2]))
     /\ (c # "apart") = (Le(wc[1], <<t, Q>>) /\ Le(<<t, Q>>, wc[2]))
FlyRight == (done = 1 /\ part = "fly") =>
  LET wo == BoxWindow(a, b, v, TRUE) wc == BoxWindow(a, b, v, FALSE) q == 6
      sc(x) == [x EXCEPT !.c = [i \in 1..3 |-> x.c[i] * q], !.e = [i \in 1..3 |-> x.e[i] * q]]
      g == [a EXCEPT !.c = [i \in 1..3 |-> a.c[i] + v[i]]]
  IN /\ \A t \in 0..q : LET A == [sc(a) EXCEPT !.c = [i \in 1..3 |-> a.c[i] * q + t * v[i]]] c == BoxClass(A, sc(b)) IN
          /\ (c = "meet") = (Lt(wo[1], <<t, q>>) /\ Lt(<<t, q>>, wo[2]))
          /\ (c # "apart") = (Le(wc[1], <<t, q>>) /\ Le(<<t, q>>, wc[2]))
     /\ (BallOut(a, g, b) => BoxMotion(a, <<b>>, v, 1) = "accept")
==============================================================================
