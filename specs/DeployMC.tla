------------------------------ MODULE DeployMC ------------------------------
(* A deployment script and the cluster it talks to, for every evolution of the queue, held jobs, failed listings and removal
   of the lock file.  Variants of the script: "fixed", "empty" (a failed listing counts as an empty queue), "offby" (one run
   too many), "cancelsome" (cancels when some job is held), "blind" (never lists again), "nolock". *)
EXTENDS Deploy, Json, IOUtils
PR == ndJsonDeserialize(IOEnv.PARAMS)[1]
Total == PR.total   Batch == PR.batch   Batches == PR.batches   Queue0 == Range1(PR.queue0)
Drains == Range1(PR.drains)
Variant == PR.variant
Gen == PR.gen
MaxF == PR.faults                  \* failed listings, per history
VARIABLES pc, todo, size, queue, held, lock, faults, since, last, lastheld, cancelled, sub, late, hist
vars == <<pc, todo, size, queue, held, lock, faults, since, last, lastheld, cancelled, sub, late, hist>>
Full == Total - Batch
Init == /\ pc = "check" /\ todo = Batches /\ size = 0 /\ queue \in Queue0 /\ held = 0 /\ lock = TRUE /\ faults = 0 /\ since = 0 /\ last = FAILED /\ lastheld = 0
        /\ cancelled = FALSE /\ sub = 0 /\ late = 0 /\ hist = <<>>
Note(e) == hist' = IF Gen THEN Append(hist, e) ELSE hist
Check == /\ pc = "check" /\ pc' = IF todo = 0 THEN "done" ELSE IF lock \/ Variant = "nolock" THEN "list" ELSE "stopped"
         /\ cancelled' = FALSE /\ UNCHANGED <<todo, size, queue, held, lock, faults, since, last, lastheld, sub, late, hist>>
(* the environment decides how the queue has evolved when it is looked at *)
(* f: 1 = the listing fails, 2 = a cancellation would fail *)
Look(d, h, f) ==
        /\ pc = "list"
        /\  LET q == Max2(queue - d, 0)
                 hh == CASE h = 0 -> 0 [] h = 1 -> Min2(1, q) [] h = 2 -> Max2(q - 1, 0) [] OTHER -> q
                 fail == f = 1 /\ faults < MaxF
                 all == IF Variant = "cancelsome" THEN hh > 0 ELSE q > 0 /\ hh = q
                 cancel == ~fail /\ all
                 gone == cancel /\ f # 2
             IN /\ Note(<<d, h, IF f = 1 /\ ~fail THEN 0 ELSE f>>)
                /\ faults' = faults + (IF fail THEN 1 ELSE 0)
                /\ queue' = IF gone THEN 0 ELSE q
                /\ held' = IF gone THEN 0 ELSE hh
                /\ last' = (IF fail THEN FAILED ELSE q) /\ lastheld' = hh /\ since' = 0
                /\ cancelled' = cancel
                /\ size' = IF fail \/ (cancel /\ ~gone) THEN (IF Variant = "empty" THEN 0 ELSE Total) ELSE q
                /\ pc' = IF size' > Full - 1 + (IF Variant = "offby" THEN 2 ELSE 0) THEN "list" ELSE "submit"
        /\ UNCHANGED <<todo, lock, sub, late>>
List == \E d \in Drains, h \in 0..3, f \in 0..2 : Look(d, h, f)
Submit == /\ pc = "submit" /\ queue' = queue + Batch /\ since' = since + Batch /\ todo' = todo - 1 /\ sub' = sub + Batch /\ late' = (IF lock THEN late ELSE late + 1)
          /\ pc' = IF Variant = "blind" /\ todo > 1 THEN "submit" ELSE "check"
          /\ cancelled' = FALSE /\ UNCHANGED <<size, held, lock, faults, last, lastheld, hist>>
Unlock == lock /\ lock' = FALSE /\ Note(<<-1, 0, 0>>) /\ cancelled' = FALSE
          /\ UNCHANGED <<pc, todo, size, queue, held, faults, since, last, lastheld, sub, late>>
Next == Check \/ List \/ Submit \/ Unlock
NextGen == Check \/ List \/ Submit \/ (Unlock /\ RandomElement(1..12) = 1)
SpecGen == Init /\ [][NextGen]_vars
Spec == Init /\ [][Next]_vars
(* fairness: the script goes on, and jobs finish and listings work again and again *)
Good == \E d \in Drains \ {0} : Look(d, 0, 0)
Live == Spec /\ WF_vars(Check) /\ WF_vars(Submit) /\ SF_vars(Good)
NeverFull == queue <= Max2(Total, MaxS(Queue0))
Submits == [][sub' # sub => Room(last, since, Batch, Total)]_vars
Cancels == [][cancelled' => MayCancel(last', lastheld')]_vars
Once == sub + todo * Batch = Batches * Batch
(* after the lock is gone at most the batch being waited for is still submitted *)
Locked == late <= 1
Done == <>(pc = "done" \/ ~lock)
PrintHist == pc \in {"done", "stopped"} => PrintT(ToJson([h |-> hist, q |-> queue]))
=============================================================================
