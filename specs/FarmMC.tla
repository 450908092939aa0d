------------------------------- MODULE FarmMC -------------------------------
(* The processes of an experiment with kills at every point.  Variants of the driver: "fixed", "rows" (skips as many trials
   as there are rows), "seeds" (seeds of skipped trials are not used up), "late" (writes at the end only), "forget" (resumes
   with an empty record), "block" (contiguous blocks that overlap), "retry" (redoes the last recorded trial). *)
EXTENDS Farm, Json, IOUtils
PR == ndJsonDeserialize(IOEnv.PARAMS)[1]
N == PR.n   P == PR.p   R == PR.rows   Kills == PR.kills   Variant == PR.variant   Gen == PR.gen
Procs == 0..P-1
Mine(p) == IF Variant = "block" THEN LET w == N \div P + 1  lo == p * (N \div P) IN [i \in 1..Min2(w, N - lo) |-> lo + i] ELSE Slice(p, P, N)
VARIABLES file, mem, ph, todo, pos, seed, nseg, kills, again, lost, hist
vars == <<file, mem, ph, todo, pos, seed, nseg, kills, again, lost, hist>>
(* a record: <<task, seed>>; the seed is <<process, place in its stream>> *)
Init == /\ file = [p \in Procs |-> <<>>] /\ mem = file /\ ph = [p \in Procs |-> "down"] /\ todo = file /\ pos = [p \in Procs |-> 1]
        /\ seed = [p \in Procs |-> 0] /\ nseg = [p \in Procs |-> 0] /\ kills = 0 /\ again = FALSE /\ lost = FALSE /\ hist = <<>>
Drop(s, k) == SubSeq(s, k + 1, Len(s))
Note(e) == hist' = IF Gen THEN Append(hist, e) ELSE hist
Start(p) == /\ ph[p] = "down"
            /\ (Gen => \A q \in Procs : ph[q] \in {"down", "finished"})
            /\ LET k == IF Variant = "rows" THEN Len(file[p]) * R ELSE IF Variant = "retry" THEN Max2(Len(file[p]) - 1, 0) ELSE Len(file[p]) IN
               /\ todo' = [todo EXCEPT ![p] = Drop(Mine(p), Min2(k, Len(Mine(p))))]
               /\ pos' = [pos EXCEPT ![p] = IF Variant = "seeds" THEN 1 ELSE k + 1]
            /\ mem' = [mem EXCEPT ![p] = IF Variant = "forget" THEN <<>> ELSE IF Variant = "retry" THEN SubSeq(file[p], 1, Max2(Len(file[p]) - 1, 0)) ELSE file[p]]
            /\ ph' = [ph EXCEPT ![p] = "ready"] /\ nseg' = [nseg EXCEPT ![p] = 0]
            /\ UNCHANGED <<file, seed, kills, again, lost, hist>>
Begin(p) == /\ ph[p] = "ready" /\ todo[p] # <<>>
            /\ ph' = [ph EXCEPT ![p] = "begun"] /\ nseg' = [nseg EXCEPT ![p] = @ + 1]
            /\ seed' = [seed EXCEPT ![p] = pos[p]] /\ pos' = [pos EXCEPT ![p] = @ + 1]
            /\ again' = (again \/ \E i \in DOMAIN file[p] : file[p][i][1] = Head(todo[p]))
            /\ lost' = (lost \/ Len(file[p]) < Len(mem[p]))          \* a completed trial is not on disk when the next begins
            /\ UNCHANGED <<file, mem, todo, kills, hist>>
Compute(p) == /\ ph[p] = "begun" /\ ph' = [ph EXCEPT ![p] = "computed"]
              /\ mem' = [mem EXCEPT ![p] = Append(@, <<Head(todo[p]), <<p, seed[p]>>>>)] /\ todo' = [todo EXCEPT ![p] = Tail(@)]
              /\ UNCHANGED <<file, pos, seed, nseg, kills, again, lost, hist>>
Write(p) == /\ ph[p] = "computed" /\ ph' = [ph EXCEPT ![p] = "ready"]
            /\ file' = IF Variant = "late" /\ todo[p] # <<>> THEN file ELSE [file EXCEPT ![p] = mem[p]]
            /\ UNCHANGED <<mem, todo, pos, seed, nseg, kills, again, lost, hist>>
Finish(p) == /\ ph[p] = "ready" /\ todo[p] = <<>> /\ ph' = [ph EXCEPT ![p] = "finished"] /\ Note(<<p, 0, "end">>)
             /\ UNCHANGED <<file, mem, todo, pos, seed, nseg, kills, again, lost>>
Kill(p) == /\ ph[p] \in {"ready", "begun", "computed"} /\ kills < Kills /\ kills' = kills + 1
           /\ ph' = [ph EXCEPT ![p] = "down"] /\ mem' = [mem EXCEPT ![p] = <<>>]
           /\ Note(<<p, nseg[p], ph[p]>>)
           /\ UNCHANGED <<file, todo, pos, seed, nseg, again, lost>>
Step(p) == Start(p) \/ Begin(p) \/ Compute(p) \/ Write(p) \/ Finish(p)
Next == \E p \in Procs : Step(p) \/ Kill(p)
NextGen == \E p \in Procs : Step(p) \/ (Kill(p) /\ RandomElement(1..PR.rare) = 1)
Spec == Init /\ [][Next]_vars
Live == Spec /\ \A p \in Procs : WF_vars(Step(p))
SpecGen == Init /\ [][NextGen]_vars
Done == \A p \in Procs : ph[p] = "finished"
(* what an uninterrupted run of process p records *)
Want(p) == [k \in DOMAIN Slice(p, P, N) |-> <<Slice(p, P, N)[k], <<p, k>>>>]
Prefix == \A p \in Procs : Len(file[p]) <= Len(Want(p)) /\ file[p] = SubSeq(Want(p), 1, Len(file[p]))
Exact == Done => \A p \in Procs : file[p] = Want(p)
Parts == Partition(P, N)
Kept == [][\A p \in Procs : Len(file'[p]) >= Len(file[p])]_vars
NoRepeat == ~again /\ ~lost
Ends == <>Done
PrintHist == Done => PrintT(ToJson([h |-> hist]))
=============================================================================
