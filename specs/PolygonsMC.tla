----------------------------- MODULE PolygonsMC -----------------------------
(* Every region of a w x h grid whose parts and holes do not touch; the cell view and the ring view of a cell agree.
   Sampling as a process: pick a part by area, then a cell of it: every cell has the same weight.  Variant "parts": parts
   picked alike, whatever their area (must be rejected). *)
EXTENDS Polygons, Json, IOUtils
PR == ndJsonDeserialize(IOEnv.PARAMS)[1]
VARIABLES S, done
Cells == {<<x, y>> : x \in 0..PR.w - 1, y \in 0..PR.h - 1}
Ring == {<<x, y>> : x \in -1..PR.w, y \in -1..PR.h}
Init == S \in SUBSET Cells /\ S # {} /\ NoTouch(S, Ring) /\ done = FALSE
Next == ~done /\ done' = TRUE /\ UNCHANGED S /\ PrintT(ToJson([c |-> S, parts |-> Cardinality(PartsOf(S))]))
Spec == Init /\ [][Next]_<<S, done>>
Parts == PartsOf(S)
Partition == /\ UNION Parts = S /\ \A p, q \in Parts : p = q \/ p \cap q = {}
             /\ \A p, q \in Parts : p # q => \A a \in p, b \in q : Abs(a[1] - b[1]) > 1 \/ Abs(a[2] - b[2]) > 1
(* weight of cell c, times the product of the normalisers: part weight / cells of the part *)
Weight(p) == IF PR.variant = "parts" THEN <<1, Cardinality(p) * Cardinality(Parts)>> ELSE <<Cardinality(p), Cardinality(p) * Cardinality(S)>>
Uniform == \A p \in Parts : Weight(p)[1] * Cardinality(S) = Weight(p)[2]
Square(c) == [ext |-> <<c, <<c[1] + 4, c[2]>>, <<c[1] + 4, c[2] + 4>>, <<c[1], c[2] + 4>>>>, holes |-> <<>>]
RingsAgree == \A c \in {<<1, 2>>, <<0, 0>>} : PartArea2(Square(c)) = 32
   /\ \A x \in {<<u, v>> : u \in -1..6, v \in -1..6} :
        LET inn == c[1] < x[1] /\ x[1] < c[1] + 4 /\ c[2] < x[2] /\ x[2] < c[2] + 4
            out == x[1] < c[1] \/ x[1] > c[1] + 4 \/ x[2] < c[2] \/ x[2] > c[2] + 4 IN
        (inn => InPart(Square(c), x)) /\ (out => ~InPart(Square(c), x)) /\ (~inn /\ ~out => NearPart(Square(c), x, 0))
===============================================================================
