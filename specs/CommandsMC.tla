----------------------------- MODULE CommandsMC -----------------------------
(* Laws of commands, for every command of at most N parts.  Variants plant mistakes in reversal: "same" (fix stays fix),
   "order" (parts keep their order), "way" (way points keep their order). *)
EXTENDS Commands, Json, IOUtils
PR == ndJsonDeserialize(IOEnv.PARAMS)[1]
N == PR.n   L == PR.l   Variant == PR.variant   Emit == PR.emit
Body == {"a", "b"}
Ways == UNION {[1..k -> 1..2] : k \in 0..L}
Atts == {<<>>, <<"a">>, <<"b">>, <<"a", "b">>}
Parts == {[k |-> "path", way |-> w, att |-> t] : w \in Ways, t \in Atts} \cup {[k |-> x, b |-> y] : x \in {"fix", "free"}, y \in Body}
VARIABLE c
Init == c = <<>>
Next == Len(c) < N /\ \E p \in Parts : c' = Append(c, p)
Spec == Init /\ [][Next]_c
R(x) == CASE Variant = "same" -> [i \in DOMAIN x |-> IF x[Len(x)+1-i].k = "path" THEN RevPart(x[Len(x)+1-i]) ELSE x[Len(x)+1-i]]
          [] Variant = "order" -> [i \in DOMAIN x |-> RevPart(x[i])]
          [] Variant = "way" -> [i \in DOMAIN x |-> IF x[Len(x)+1-i].k = "path" THEN x[Len(x)+1-i] ELSE RevPart(x[Len(x)+1-i])]
          [] OTHER -> Rev(x)
St == [conf |-> -1, at |-> [b \in Body |-> -1]]
Confs(s) == [i \in DOMAIN s |-> s[i].conf]
Swap(e) == IF e[1] = "go" THEN e ELSE <<Other(e[1]), e[2]>>
Twice == R(R(c)) = c
Backwards == /\ Confs(Play(R(c), St)) = RevSeq(Confs(Play(c, St)))
             /\ LET e == Control(c)  f == Control(R(c)) IN Len(f) = Len(e) /\ \A i \in DOMAIN e : f[i] = Swap(e[Len(e) + 1 - i])
(* undoing: what could be done from H and ended in K can be undone from K and ends in H *)
Undo == \A H \in SUBSET Body : LET K == Held(Control(c), H) IN K # {"bad"} => Held(Control(R(c)), K) = H
SameBodies == Bodies(R(c), "r") = Bodies(c, "r") /\ Bodies(Refined(c, 1), "r") = Bodies(c, "r")
(* refining keeps every way point, in order, and undoing a refinement is refining the undoing *)
Dense == \A n \in 0..2 : R(Refined(c, n)) = Refined(R(c), n)
Scenario == Emit => PrintT(ToJson([k |-> "S", c |-> c]))
=============================================================================
