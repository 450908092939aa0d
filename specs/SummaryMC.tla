----------------------------- MODULE SummaryMC -----------------------------
(* Runs write logs line by line, side by side, and may die at any line; then a reader takes the logs in any order, keeps
   what it last read per log, and groups.  Its table is what the runs say (Summary).
   Wrong variants: "died" counts runs without a duration, "min" groups by the lower limit only, "last" keeps one run per setting,
   "file" keeps values per setting of the log read before. *)
EXTENDS Summary, Json, IOUtils
P == ndJsonDeserialize(IOEnv.PARAMS)[1]
N == 1..P.n
Kinds == {<<1, 4, 0>>, <<1, 6, 0>>, <<2, 4, 1>>}
VARIABLES runs, logs, left, mem, phase
vars == <<runs, logs, left, mem, phase>>
Empty == [s |-> <<>>, ok |-> -1, t |-> -1, delta |-> -1, found |-> -1]
Init == /\ runs \in [N -> {[s |-> s, delta |-> d, found |-> <<>>, fin |-> "died", t |-> 0] : s \in Kinds, d \in {1, 2}}]
        /\ logs = [i \in N |-> <<>>] /\ left = N /\ mem = [i \in N |-> Empty] /\ phase = "write"
Has(i, k) == \E j \in DOMAIN logs[i] : logs[i][j][1] = k
Say(i, line) == logs' = [logs EXCEPT ![i] = Append(@, line)]
Write(i) == /\ phase = "write" /\ UNCHANGED <<left, mem, phase>>
  /\ \/ /\ logs[i] = <<>> /\ Say(i, <<"args", runs[i].s>>) /\ UNCHANGED runs
     \/ /\ Has(i, "args") /\ ~Has(i, "delta") /\ Say(i, <<"delta", runs[i].delta>>) /\ UNCHANGED runs
     \/ /\ Has(i, "delta") /\ ~Has(i, "solved") /\ Len(runs[i].found) < P.found
        /\ \E c \in {5, 7} : Say(i, <<"found", c>>) /\ runs' = [runs EXCEPT ![i].found = Append(@, c)]
     \/ /\ Has(i, "delta") /\ ~Has(i, "solved") /\ \E b \in BOOLEAN : Say(i, <<"solved", b>>) /\ UNCHANGED runs
     \/ /\ Has(i, "solved") /\ ~Has(i, "time")
        /\ \E d \in {3, 8} : Say(i, <<"time", d>>) /\ runs' = [runs EXCEPT ![i].t = d, ![i].fin = IF <<"solved", TRUE>> \in {logs[i][j] : j \in DOMAIN logs[i]} THEN "solved" ELSE "unsolved"]
Stop == phase = "write" /\ phase' = "read" /\ UNCHANGED <<runs, logs, left, mem>>
RECURSIVE Scan(_, _)
Scan(ls, m) == IF ls = <<>> THEN m
               ELSE LET x == Head(ls) IN
                    Scan(Tail(ls), CASE x[1] = "args" -> [m EXCEPT !.s = x[2]]
                                     [] x[1] = "delta" -> [m EXCEPT !.delta = x[2]]
                                     [] x[1] = "found" -> [m EXCEPT !.found = x[2]]
                                     [] x[1] = "solved" -> [m EXCEPT !.ok = IF x[2] THEN 1 ELSE 0]
                                     [] OTHER -> [m EXCEPT !.t = x[2]])
Read(i) == /\ phase = "read" /\ i \in left /\ left' = left \ {i}
           /\ mem' = [mem EXCEPT ![i] = Scan(logs[i], IF P.variant = "file" /\ left # N THEN mem[CHOOSE j \in N : j \notin left] ELSE Empty)]
           /\ UNCHANGED <<runs, logs, phase>>
Spec == Init /\ [][(\E i \in N : Write(i) \/ Read(i)) \/ Stop]_vars
(* the reader's table *)
Key(m) == IF P.variant = "min" THEN <<m.s[1]>> ELSE m.s
Kept == {i \in N : IF P.variant = "died" THEN mem[i].s # <<>> ELSE mem[i].t # -1}
Row(k) == LET all == {i \in Kept : Key(mem[i]) = k}
              I == IF P.variant = "last" THEN {CHOOSE i \in all : TRUE} ELSE all
          IN <<Cardinality(I), Cardinality({i \in I : mem[i].ok = 1}), SumOver(I, [i \in N |-> IF mem[i].t = -1 THEN 0 ELSE mem[i].t])>>
Table == [k \in {Key(mem[i]) : i \in Kept} |-> Row(k)]
Want == [s \in Settings(runs) |-> <<Cardinality(Of(runs, s)), Wins(runs, s), Times(runs, s)>>]
Shown == phase = "read" /\ left = {}
Right == Shown => Table = Want
Dots == Shown => /\ {i \in N : mem[i].found # -1} = Found(runs)
                 /\ \A i \in Found(runs) : <<mem[i].delta, mem[i].found>> = Point(runs[i])
=============================================================================
