----------------------------- MODULE StoreTrace -----------------------------
(* Histories of real roadmaps in several processes.  Event: op, r (roadmap), f (file named, 0: none), ok, mem (digest of every roadmap
   after it), disk (digest of what every file name reads back to; "half" when one of its two files is missing or unreadable), stray
   (files nowhere expected), temp (files in the cache folder), key (setting reached, "" when none).  Event 1 is the start. *)
EXTENDS Store, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES tid, l, own, seen
Tr == Traces[tid]
Ev == Tr.ev
R == 1..Tr.r
Set(s) == {s[i] : i \in DOMAIN s}
RECURSIVE FirstBad(_)
FirstBad(cs) == IF cs = <<>> THEN "" ELSE IF ~Head(cs)[1] THEN Head(cs)[2] ELSE FirstBad(Tail(cs))
C(b, e) == <<
  <<e.op # "save" => e.ok, "an operation fails">>,
  <<\A q \in R \ {e.r} : e.mem[q] = b.mem[q], "another roadmap changes">>,
  <<Keeps(e.op) => e.mem[e.r] = b.mem[e.r], "saving or querying changes the roadmap">>,
  <<e.op = "save" /\ ~Savable(b.mem[e.r]) => ~e.ok, "a roadmap that was never grown is saved">>,
  <<e.op = "save" /\ Savable(b.mem[e.r]) => e.ok, "saving fails">>,
  <<e.op = "save" /\ e.ok => e.disk[e.f] = b.mem[e.r], "the files do not hold the roadmap">>,
  <<\A x \in DOMAIN e.disk : (x # e.f \/ ~e.ok) => e.disk[x] = b.disk[x], "files of an earlier save change">>,
  <<e.stray = 0, "files outside the cache folder and the names given">>,
  <<e.op = "reset" => e.mem[e.r] = None, "a reset leaves the roadmap">>,
  <<e.op = "reset" => Set(e.temp) \cap own[e.r] = {}, "a reset leaves the cache">>,
  <<\A q \in R \ {e.r} : own[q] \subseteq Set(e.temp), "the cache of another roadmap is removed">>,
  <<e.key # "" => Functional(seen \cup {<<e.key, e.mem[e.r]>>}), "the same setting gives another roadmap">> >>
Init == tid \in DOMAIN Traces /\ l = 1 /\ own = [r \in R |-> {}] /\ seen = {}
Next == /\ l >= 1 /\ l < Len(Ev) /\ UNCHANGED tid
        /\ LET b == Ev[l]  e == Ev[l + 1]  w == FirstBad(C(b, e)) IN
           IF w # "" THEN /\ PrintT(ToJson([k |-> "V", t |-> tid, l |-> l, c |-> w, d |-> <<e.op, e.err>>])) /\ l' = 0 /\ UNCHANGED <<own, seen>>
           ELSE /\ l' = l + 1
                /\ own' = [own EXCEPT ![e.r] = IF e.op = "reset" THEN {} ELSE @ \cup (Set(e.temp) \ Set(b.temp))]
                /\ seen' = IF e.key # "" THEN seen \cup {<<e.key, e.mem[e.r]>>} ELSE seen
                /\ l + 1 < Len(Ev) \/ PrintT(ToJson([k |-> "D", t |-> tid, saves |-> Cardinality({i \in DOMAIN Ev : Ev[i].op = "save" /\ Ev[i].ok})]))
Spec == Init /\ [][Next]_<<tid, l, own, seen>>
=============================================================================
