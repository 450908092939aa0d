----------------------------- MODULE NeighboursMC -----------------------------
(* An adapter: build once, then feed more samples.  The rows are maintained incrementally (old row merged with the fresh
   samples; rows of fresh samples computed in full); the invariant says this equals building from everything at once.
   Variant "norows": the rows of old samples are not revisited (must be rejected).  Also prints call histories. *)
EXTENDS Neighbours, Json, IOUtils
PR == ndJsonDeserialize(IOEnv.PARAMS)[1]
Own == PR.own
VARIABLES P, k, rows, hist, bad
vars == <<P, k, rows, hist, bad>>
Pool == [i \in DOMAIN PR.pool |-> PR.pool[i]]
(* the k best candidates among the ids C, nearest first, ties by id *)
RECURSIVE Best(_, _, _, _)
Best(Q, i, C, m) == IF m = 0 THEN <<>>
  ELSE LET c == CHOOSE a \in C : \A b \in C : Dist2(Q[i], Q[a]) < Dist2(Q[i], Q[b]) \/ (Dist2(Q[i], Q[a]) = Dist2(Q[i], Q[b]) /\ a <= b)
       IN <<c>> \o Best(Q, i, C \ {c}, m - 1)
Init == P = <<>> /\ k = 0 /\ rows = <<>> /\ hist = <<>> /\ bad = FALSE
Log(h) == hist' = Append(hist, h)
New(m, kk) == LET Q == SubSeq(Pool, 1, m) IN
  /\ P' = Q /\ k' = kk /\ bad' = FALSE /\ Log(<<"new", m, kk>>)
  /\ rows' = [i \in DOMAIN Q |-> Best(Q, i, Cands(Q, i, Own), kk)]
Update(m) ==
  /\ Log(<<"update", m, 0>>)
  /\ IF k = 0 THEN bad' = TRUE /\ UNCHANGED <<P, k, rows>>
     ELSE LET Q == SubSeq(Pool, 1, Len(P) + m)  F == Len(P) + 1..Len(Q) IN
          /\ P' = Q /\ bad' = FALSE /\ UNCHANGED k
          /\ rows' = [i \in DOMAIN Q |-> IF i \in F THEN Best(Q, i, Cands(Q, i, Own), k)
                                         ELSE IF PR.variant = "norows" THEN rows[i] ELSE Best(Q, i, Range1(rows[i]) \cup F, k)]
Next == /\ Len(hist) < PR.maxhist
        /\ \/ \E m \in Range1(PR.sizes), kk \in Range1(PR.ks) : m > kk /\ New(m, kk)
           \/ \E m \in Range1(PR.fresh) : Len(P) + m <= Len(Pool) /\ Update(m)
Spec == Init /\ [][Next]_vars
Exact == \A i \in DOMAIN P : RowOk(P, i, k, Own, rows[i])
PrintHist == hist = <<>> \/ Len(hist) < PR.maxhist \/ PrintT(ToJson([h |-> hist]))
===============================================================================
