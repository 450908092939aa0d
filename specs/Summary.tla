------------------------------ MODULE Summary ------------------------------
(* What the summaries of a set of planner runs have to show.
   A run is [s |-> setting <<min, max, adaptive>>, delta, found |-> counts its motion plans were found with, in order,
             fin |-> "solved" | "unsolved" | "died", t |-> duration]. *)
EXTENDS Integers, Sequences, FiniteSets, TLC
RECURSIVE SumOver(_, _)
SumOver(S, f) == IF S = {} THEN 0 ELSE LET x == CHOOSE x \in S : TRUE IN f[x] + SumOver(S \ {x}, f)
Done(R) == {i \in DOMAIN R : R[i].fin # "died"}
Settings(R) == {R[i].s : i \in Done(R)}
Of(R, s) == {i \in Done(R) : R[i].s = s}
Wins(R, s) == Cardinality({i \in Of(R, s) : R[i].fin = "solved"})
Times(R, s) == SumOver(Of(R, s), [i \in DOMAIN R |-> R[i].t])
Times2(R, s) == SumOver(Of(R, s), [i \in DOMAIN R |-> R[i].t * R[i].t])
Found(R) == {i \in DOMAIN R : R[i].found # <<>>}
Point(r) == <<r.delta, r.found[Len(r.found)]>>
=============================================================================
