------------------------------- MODULE SeedMC -------------------------------
(* Two runs of the same program, each starting with two random sources in any state.  A run seeds the sources and draws its
   world from them.  Wrong variants: "late" draws before it seeds, "half" seeds one source, "fixed" ignores the seed's value,
   "none" never seeds. *)
EXTENDS Runs, Json, IOUtils
P == ndJsonDeserialize(IOEnv.PARAMS)[1]
Prog == CASE P.variant = "late" -> <<"a", "seed", "b">> [] P.variant = "none" -> <<"a", "b">> [] OTHER -> <<"seed", "a", "b", "a">>
VARIABLES s, pc, src, w
vars == <<s, pc, src, w>>
Init == s \in [1..2 -> 0..P.n] /\ pc = [r \in 1..2 |-> 1] /\ src \in [1..2 -> [{"a", "b"} -> {<<-1, 0>>, <<-2, 0>>}]] /\ w = [r \in 1..2 |-> <<>>]
Step(r) == /\ pc[r] <= Len(Prog) /\ pc' = [pc EXCEPT ![r] = @ + 1] /\ UNCHANGED s
           /\ LET x == Prog[pc[r]]  v == IF P.variant = "fixed" THEN 0 ELSE s[r] IN
              IF x = "seed" THEN /\ src' = [src EXCEPT ![r] = [k \in {"a", "b"} |-> IF k = "b" /\ P.variant = "half" THEN src[r][k] ELSE <<v, 0>>]]
                                 /\ UNCHANGED w
              ELSE /\ w' = [w EXCEPT ![r] = Append(@, src[r][x])]
                   /\ src' = [src EXCEPT ![r][x] = <<@[1], @[2] + 1>>]
Spec == Init /\ [][\E r \in 1..2 : Step(r)]_vars
Over == \A r \in 1..2 : pc[r] > Len(Prog)
Same == Over => Repeats(s[1], w[1], s[2], w[2])
Other == Over => Varies(s[1], w[1], s[2], w[2])
=============================================================================
