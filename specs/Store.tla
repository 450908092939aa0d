-------------------------------- MODULE Store --------------------------------
(* Roadmaps and their files.  A roadmap is a value (its graph and its samples) or None; a saved file holds the value the roadmap had
   when it was saved; every roadmap has a cache of its own, from which it is widened again after having been thinned. *)
EXTENDS Integers, Sequences, FiniteSets, TLC
None == "none"
(* what a step may change: the roadmap itself, the files it names, its own cache *)
Writes(op) == op = "save"
Thins(op) == op \in {"setk", "setr"}
Keeps(op) == op \in {"save", "query"}
(* a roadmap that was never grown (or was reset) cannot be saved *)
Savable(v) == v # None
(* one value per setting: no two of these differ in the value and agree in the setting *)
Functional(seen) == \A x, y \in seen : x[1] = y[1] => x[2] = y[2]
=============================================================================
