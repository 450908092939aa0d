------------------------------ MODULE FarmTrace ------------------------------
(* Segments of real driver runs.  Tr: P, combos of the configuration as the lists they are the product of, rows per trial,
   base[p+1] = rows of an uninterrupted run of process p, ev = segments [p, begun, end, rows].
   A row: [t, c, d, n, m (place in the schedule), s (seed), v (all its values, timings aside)]. *)
EXTENDS Farm, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES tid, l, disk, bad
Tr == Traces[tid]
Combos == IF Tr.kind = "narrow" THEN Prod(1, Tr.cs, Tr.ds, Tr.n, 1) \o Prod(2, Tr.cs, Tr.ds2, Tr.n, 1) ELSE Prod(1, Tr.cs, Tr.ds, Tr.n, 1)
(* rows of one trial: what its schedule asks for *)
Marks(c) == IF c.t = 1 THEN Tr.marks ELSE Tr.marks2
Base(p) == Tr.base[p + 1]
(* the trials of a process, as it ran them uninterrupted: maximal runs of rows with one seed *)
Starts(p) == {i \in DOMAIN Base(p) : i = 1 \/ Base(p)[i].s # Base(p)[i - 1].s}
NT(p) == Cardinality(Starts(p))
Cut(p, k) == IF k >= NT(p) THEN Len(Base(p)) ELSE (CHOOSE i \in Starts(p) : Cardinality({j \in Starts(p) : j < i}) = k) - 1
All == UNION {{<<p, i>> : i \in DOMAIN Base(p)} : p \in 0..Tr.P-1}
R(x) == Base(x[1])[x[2]]
Same(a, b) == a.t = b.t /\ a.c = b.c /\ a.d = b.d /\ a.n = b.n
BaseC ==
  << <<Tr.ok, "an uninterrupted run failed">>,
     <<\A i \in DOMAIN Combos : Cardinality({x[1] : x \in {y \in All : Same(R(y), Combos[i])}}) = 1, "a combination is done by no process or by several">>,
     <<\A i \in DOMAIN Combos : LET S == {y \in All : Same(R(y), Combos[i])} IN
          Cardinality(S) = Len(Marks(Combos[i])) /\ {R(y).m : y \in S} = Range1(Marks(Combos[i])), "a trial is not recorded with one row per scheduled count">>,
     <<\A x \in All : \E i \in DOMAIN Combos : Same(R(x), Combos[i]), "a row of no configured combination">>,
     <<\A x, y \in All : Same(R(x), R(y)) <=> R(x).s = R(y).s, "every trial its own seed">>,
     <<Tr.args, "trials run with other settings than configured">> >>
Ev == Tr.ev[l]
Has(p) == disk[p + 1]
(* k complete trials on disk *)
K == {k \in 0..NT(Ev.p) : LET w == SubSeq(Base(Ev.p), 1, Cut(Ev.p, k)) IN Len(w) = Len(Ev.rows) /\ Range1(w) = Range1(Ev.rows)}
SegC ==
  LET p == Ev.p  k0 == Has(p)  done == Range1(SubSeq(Base(p), 1, Cut(p, k0))) IN
  << <<Ev.end # "raise", "the driver failed">>,
     <<K # {}, "the file is not whole trials of the uninterrupted run, once each">>,
     <<\A k \in K : k >= k0, "recorded trials lost">>,
     <<\A i \in DOMAIN Ev.begun : \A r \in done : ~(r.s = Ev.begun[i].s /\ r.d = Ev.begun[i].d), "a completed trial was repeated">>,
     <<\A k \in K : k >= k0 + Cardinality(Range1(Ev.begun)) - 1, "a completed trial was not saved before the next began">>,
     <<Ev.end = "ok" => NT(p) \in K, "finished without all of its trials">> >>
Init == tid \in DOMAIN Traces /\ l = 0 /\ disk = [i \in 1..Traces[tid].P |-> 0] /\ bad = FALSE
Next == /\ ~bad /\ l <= Len(Tr.ev)
        /\ LET cs == IF l = 0 THEN BaseC ELSE SegC  f == {i \in DOMAIN cs : ~cs[i][1]} IN
           /\ bad' = (f # {})
           /\ disk' = IF l = 0 \/ f # {} THEN disk ELSE [disk EXCEPT ![Ev.p + 1] = CHOOSE k \in K : TRUE]
           /\ (f # {} => PrintT(ToJson([k |-> "V", t |-> tid, l |-> l, c |-> cs[CHOOSE i \in f : \A j \in f : i <= j][2], d |-> <<>>])))
           /\ (f = {} /\ l = Len(Tr.ev) =>
                 LET un == {p \in 0..Tr.P-1 : disk'[p + 1] # NT(p)} IN
                 IF un = {} THEN PrintT(ToJson([k |-> "D", t |-> tid, segments |-> Len(Tr.ev)]))
                 ELSE PrintT(ToJson([k |-> "V", t |-> tid, l |-> l, c |-> "trials left over at the end", d |-> <<>>])))
        /\ l' = l + 1 /\ UNCHANGED tid
Spec == Init /\ [][Next]_<<tid, l, disk, bad>>
=============================================================================
