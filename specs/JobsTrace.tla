------------------------------ MODULE JobsTrace ------------------------------
(* Histories of the real submission script (kind "jobs"), tuning sweeps (kind "tune") and aggregations (kind "agg"). *)
EXTENDS Jobs, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES tid, l, ds, bad
Tr == Traces[tid]
Ev == Tr.ev[l + 1]

Cfg(d) == [name |-> d.name, stamp |-> d.stamp, cfg |-> d.cfg, tr |-> d.tr]
(* one launch, described by what its script does when run: driver, configuration, directory, process arguments *)
LaunchC(x, i) ==
  << <<x.dir = i, "another experiment is launched">>, <<x.tr = ds'[i].tr, "wrong triples">>,
     <<x.type = ds'[i].type, "wrong driver">>, <<x.cfgof = i, "driver gets another configuration">>,
     <<x.saveof = i, "driver saves elsewhere">>, <<x.rank, "driver not told its task number and count">>,
     <<x.exec, "script is not executable">>, <<x.path, "driver cannot import the library">>,
     <<x.runs = 1, "script does not run the driver exactly once">> >>
Seen == [i \in DOMAIN Ev.dirs |-> Ev.dirs[i]]
Expect(s) == {Cfg(s[i]) : i \in DOMAIN s}
DirsC == << <<Expect(ds') = {Cfg(Ev.dirs[i]) : i \in DOMAIN Ev.dirs} /\ Len(ds') = Len(Ev.dirs), "experiment directories or their configurations">>,
            <<Ev.src, "the given configuration file was changed">> >>
New == [name |-> Ev.name, stamp |-> Ev.stamp, cfg |-> Ev.cfg, type |-> Ev.type, tr |-> Ev.tr, mt |-> Ev.mt]
SubmitC ==
  LET ok == Accept(ds, Ev.name, Ev.stamp, Ev.cfg # "") IN
  << <<Ev.launch # <<>> => ok, "launched although the directory exists or the configuration is missing">>,
     <<ok \/ Ev.rc # 0, "refusal not reported">>,
     <<ok => Ev.rc = 0, "submission failed">>,
     <<ok => Len(Ev.launch) = 1, "not launched exactly once">> >>
  \o DirsC \o (IF ok /\ Len(Ev.launch) = 1 THEN LaunchC(Ev.launch[1], Len(ds) + 1) ELSE <<>>)
ResumeC ==
  LET S == Own(ds, Ev.name)  i == CHOOSE i \in Latest(ds, S) : TRUE IN
  IF S = {} THEN << <<Ev.launch = <<>>, "launched although there is no such experiment">>, <<Ev.rc # 0, "missing experiment not reported">> >> \o DirsC
  ELSE << <<Ev.rc = 0, "resuming failed">>, <<Len(Ev.launch) = 1, "not launched exactly once">> >> \o DirsC
       \o (IF Len(Ev.launch) = 1 THEN LaunchC(Ev.launch[1], i) ELSE <<>>)
JobsStep == CASE Ev.op = "submit" -> ds' = IF Accept(ds, Ev.name, Ev.stamp, Ev.cfg # "") THEN Append(ds, New) ELSE ds
              [] Ev.op = "write" -> ds' = [ds EXCEPT ![Ev.i].mt = Ev.mt]
              [] OTHER -> ds' = ds
JobsC == CASE Ev.op = "submit" -> SubmitC [] Ev.op = "resume" -> ResumeC [] OTHER -> <<>>

(* a sweep: every launch of the sweep in order *)
TuneC ==
  LET xs == Ev.launch  tr(i) == xs[i].tr  want == Swept(Ev.what, Ev.fill) IN
  << <<Ev.rc = 0, "sweep failed">>,
     <<\A i \in DOMAIN xs : tr(i)[2] * tr(i)[3] <= PerNode /\ tr(i)[1] = 1, "more than a node holds">>,
     <<{tr(i) : i \in DOMAIN xs} = want, "swept counts">>,
     <<Len(xs) = Cardinality(want), "a count submitted more than once">>,
     <<Cardinality({xs[i].name : i \in DOMAIN xs}) = Len(xs), "names not distinct">>,
     <<\A i \in DOMAIN xs : xs[i].dir > 0 /\ xs[i].type = Ev.type /\ xs[i].cfg = Ev.cfg /\ xs[i].cfgtr = tr(i), "wrong experiment type or configuration">> >>

(* an aggregation: dirs[i] = [match, mt, rows (one sequence of row numbers per process)], rows of the written aggregate *)
AggC ==
  LET S == {i \in DOMAIN Ev.dirs : Ev.dirs[i].match}
      i == CHOOSE i \in S : \A j \in S : Ev.dirs[j].mt <= Ev.dirs[i].mt
      want == UNION {Range1(Ev.dirs[i].rows[p]) : p \in DOMAIN Ev.dirs[i].rows}
      got == Ev.rows
  IN << <<Ev.written = <<i>>, "written into another directory or not once">>,
        <<Ev.named, "name of the aggregate">>,
        <<Range1(got) \subseteq want, "rows that are no record of this run">>,
        <<want \subseteq Range1(got), "records lost">>,
        <<Len(got) = Cardinality(want), "records repeated">>,
        <<Ev.kept, "record files changed">> >>
Clauses == CASE Tr.kind = "jobs" -> JobsC [] Tr.kind = "tune" -> TuneC [] OTHER -> AggC
Step == IF Tr.kind = "jobs" THEN JobsStep ELSE ds' = ds

Init == tid \in DOMAIN Traces /\ l = 0 /\ ds = <<>> /\ bad = FALSE
Next == /\ ~bad /\ l < Len(Tr.ev)
        /\ Step
        /\ LET cs == Clauses  f == {i \in DOMAIN cs : ~cs[i][1]} IN
           /\ bad' = (f # {})
           /\ (f # {} => PrintT(ToJson([k |-> "V", t |-> tid, l |-> l + 1, c |-> cs[CHOOSE i \in f : \A j \in f : i <= j][2], d |-> <<>>])))
           /\ (f = {} /\ l + 1 = Len(Tr.ev) => PrintT(ToJson([k |-> "D", t |-> tid, events |-> Len(Tr.ev)])))
        /\ l' = l + 1 /\ UNCHANGED tid
Spec == Init /\ [][Next]_<<tid, l, ds, bad>>
=============================================================================
