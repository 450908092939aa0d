-------------------------------- MODULE Jobs --------------------------------
(* Experiment directories and job launches.  A directory is a record [name, stamp, cfg, type, tr, mt]: experiment name,
   time stamp of its creation, configuration, driver, triples, time of last modification. *)
EXTENDS Fix, TLC
Clashes(ds, n, t) == \E i \in DOMAIN ds : ds[i].name = n /\ ds[i].stamp = t
(* a new submission: refused, or the directory to create *)
Accept(ds, n, t, cfgok) == cfgok /\ ~Clashes(ds, n, t)
Own(ds, n) == {i \in DOMAIN ds : ds[i].name = n}
Latest(ds, S) == {i \in S : \A j \in S : ds[j].mt <= ds[i].mt}
(* a launch as seen from outside: directory index, triples, driver, configuration, saving directory *)
Launch(ds, i) == [dir |-> i, tr |-> ds[i].tr, type |-> ds[i].type, cfg |-> ds[i].cfg]

(* tuning sweeps and aggregation *)
Counts == <<1, 2, 4, 8, 16, 24, 32, 48>>
PerNode == 48
Swept(what, fill) == {IF what = "nppn" THEN <<1, Counts[i], fill>> ELSE <<1, fill, Counts[i]>> :
                      i \in {j \in DOMAIN Counts : Counts[j] * fill <= PerNode}}
=============================================================================
