------------------------------- MODULE RunsMC -------------------------------
(* The array script: walk the seeds, count, run when the count is the task's.  Wrong variants: "zero" counts seeds from 0,
   "inside" counts only when it ran, "two" walks two algorithms per seed, "rest" runs every later seed as well. *)
EXTENDS Runs, Json, IOUtils
P == ndJsonDeserialize(IOEnv.PARAMS)[1]
VARIABLES task, i, seed, alg, runs, done
vars == <<task, i, seed, alg, runs, done>>
Algs == IF P.variant = "two" THEN 2 ELSE 1
Init == task \in 0..P.n + 2 /\ i = 1 /\ seed = (IF P.variant = "zero" THEN 0 ELSE 1) /\ alg = 1 /\ runs = <<>> /\ done = FALSE
Hit == IF P.variant = "rest" THEN task <= i /\ task > 0 ELSE i = task
Step == /\ ~done /\ seed <= P.n
        /\ runs' = (IF Hit THEN Append(runs, seed) ELSE runs)
        /\ i' = (IF P.variant = "inside" /\ ~Hit THEN i ELSE i + 1)
        /\ alg' = (IF alg = Algs THEN 1 ELSE alg + 1)
        /\ seed' = (IF alg = Algs THEN seed + 1 ELSE seed)
        /\ UNCHANGED <<task, done>>
End == ~done /\ seed > P.n /\ done' = TRUE /\ UNCHANGED <<task, i, seed, alg, runs>>
Spec == Init /\ [][Step \/ End]_vars
Once == done => runs = Seeds(P.n, task)
=============================================================================
