-------------------------------- MODULE Runs --------------------------------
(* Arrays of planner runs, and what one run is asked for. *)
EXTENDS Integers, Sequences, FiniteSets, TLC
(* task number i of an array is one run, seeded by its number; there are N tasks *)
Seeds(N, i) == IF i \in 1..N THEN <<i>> ELSE <<>>
(* what the array was submitted with: limits <<min, max, 0>>, the bound <<_, _, 1>>, or margins <<delta, buffer, angle>> *)
Asked(form, args) ==
  CASE form = "margins" -> [mode |-> "bound", min |-> "", max |-> "", margins |-> args]
    [] args[3] = "1" -> [mode |-> "bound", min |-> "", max |-> "", margins |-> <<"", "", "">>]
    [] OTHER -> [mode |-> "limits", min |-> args[1], max |-> args[2], margins |-> <<"", "", "">>]
(* a run grows its roadmaps from First to Last *)
FirstOf(adapt, mn, B) == IF adapt THEN B - 1 ELSE mn
LastOf(adapt, mx, B) == IF adapt THEN B ELSE mx
(* two runs with the same options: the seed decides the world *)
Repeats(s1, w1, s2, w2) == s1 = s2 => w1 = w2
Varies(s1, w1, s2, w2) == s1 # s2 => w1 # w2
=============================================================================
