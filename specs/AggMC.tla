-------------------------------- MODULE AggMC --------------------------------
(* Tuning sweeps and aggregation.  A run is a directory with a name (a sequence of characters, so that prefixes can be
   told), a time of modification, per-process record files and other files.  Variants: "fixed"; "anyout" (every file whose
   name starts with "out" is a record file, earlier aggregates too); "first" (oldest run); "byname" (last in name order). *)
EXTENDS Jobs, Json, IOUtils
PR == ndJsonDeserialize(IOEnv.PARAMS)[1]
DirNames == PR.names               \* sequences of characters, in name order
OutNames == Range1(PR.outs)        \* requested aggregate names; "out1" starts with out
Prefs == Range1(PR.prefs)
Procs == Range1(PR.procs)          \* numbers of processes
Variant == PR.variant
MaxH == PR.maxhist
Gen == PR.gen
VARIABLES runs, files, clock, agg, hist
vars == <<runs, files, clock, agg, hist>>
PrefixOf(p, s) == Len(p) <= Len(s) /\ SubSeq(s, 1, Len(p)) = p
NOAGG == [d |-> 0, pre |-> <<>>, rows |-> <<>>, before |-> {}]
Init == runs = <<>> /\ files = {} /\ clock = 1 /\ agg = NOAGG /\ hist = <<>>
(* a record file: <<directory, file name, rows>>; row = <<directory, process>> (one row per process is enough here) *)
New(n, p) == /\ n \in 1..Len(DirNames) /\ \A i \in DOMAIN runs : runs[i].n # n
             /\ runs' = Append(runs, [n |-> n, mt |-> clock, p |-> p]) /\ clock' = clock + 1
             /\ files' = files \cup {<<Len(runs) + 1, "rec", k, <<<<Len(runs) + 1, k>>>>>> : k \in 1..p}
             /\ agg' = NOAGG /\ hist' = Append(hist, <<"new", n, p>>)
Touch(i) == /\ i \in DOMAIN runs /\ runs' = [runs EXCEPT ![i].mt = clock] /\ clock' = clock + 1
            /\ UNCHANGED files /\ agg' = NOAGG /\ hist' = Append(hist, <<"touch", i>>)
RECURSIVE Cat(_)
Cat(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE x \in S : TRUE IN x[4] \o Cat(S \ {x})
Aggregate(pre, o) ==
  LET M == {i \in DOMAIN runs : PrefixOf(pre, DirNames[runs[i].n])}
      i == CASE Variant = "first" -> CHOOSE i \in M : \A j \in M : runs[i].mt <= runs[j].mt
             [] Variant = "byname" -> CHOOSE i \in M : \A j \in M : runs[j].n <= runs[i].n
             [] OTHER -> CHOOSE i \in M : \A j \in M : runs[j].mt <= runs[i].mt
      src == {f \in files : f[1] = i /\ (f[2] = "rec" \/ (Variant = "anyout" /\ f[2] = "out1"))}
      rows == Cat(src)
  IN /\ M # {} /\ agg' = [d |-> i, pre |-> pre, rows |-> rows, before |-> {<<j, runs[j].mt>> : j \in M}]
     /\ files' = {f \in files : ~(f[1] = i /\ f[2] = o)} \cup {<<i, o, 0, rows>>}
     /\ runs' = [runs EXCEPT ![i].mt = clock] /\ clock' = clock + 1 /\ hist' = Append(hist, <<"agg", pre, o>>)
Next == /\ Len(hist) < MaxH
        /\ \/ \E n \in 1..Len(DirNames), p \in Procs : New(n, p)
           \/ \E i \in 1..Len(runs) : Touch(i)
           \/ \E p \in Prefs, o \in OutNames : Aggregate(p, o)
Spec == Init /\ [][Next]_vars
Complete == agg.d # 0 => /\ Range1(agg.rows) = {<<agg.d, k>> : k \in 1..runs[agg.d].p} /\ Len(agg.rows) = runs[agg.d].p
LastOne == agg.d # 0 => \A x \in agg.before : \E y \in agg.before : y[1] = agg.d /\ x[2] <= y[2]
Sweeps == \A w \in {"nppn", "threads"}, f \in 1..60 :
            /\ \A t \in Swept(w, f) : t[2] * t[3] <= PerNode /\ t[1] = 1 /\ f \in {t[2], t[3]}
            /\ (Swept(w, f) = {}) = (f > PerNode)
PrintHist == Len(hist) = MaxH => PrintT(ToJson([h |-> hist]))
=============================================================================
