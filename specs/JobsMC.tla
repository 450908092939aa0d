------------------------------- MODULE JobsMC -------------------------------
(* Histories of submissions, resumptions and jobs writing into their directories.  Names are strings; directory names are
   name \o "_" \o stamp, and Prefixes lists the pairs (m, n) where m is a proper prefix of n.
   Variant: "fixed", "prefix" (resume takes any directory whose name starts with the given one), "launch" (a submission
   without configuration leaves a directory and launches), "name" (resume takes the newest stamp, not the last modified),
   "overwrite" (an existing directory is reused). *)
EXTENDS Jobs, Json, IOUtils
PR == ndJsonDeserialize(IOEnv.PARAMS)[1]
Names == Range1(PR.names)
Prefixes == {<<p[1], p[2]>> : p \in Range1(PR.prefixes)}
Types == Range1(PR.types)
Cfgs == Range1(PR.cfgs)            \* "" = missing file
Trs == Range1(PR.trs)
Variant == PR.variant
Gen == PR.gen
MaxH == PR.maxhist

VARIABLES ds, now, mod, out, op, hist
vars == <<ds, now, mod, out, op, hist>>
Log(o) == op' = o /\ hist' = IF Gen THEN Append(hist, o) ELSE Append(hist, 0)
NONE == <<>>
Init == ds = <<>> /\ now = 1 /\ mod = 1 /\ out = NONE /\ op = <<"init">> /\ hist = <<>>

Tick == now' = now + 1 /\ UNCHANGED <<ds, mod>> /\ out' = NONE /\ Log(<<"tick">>)
Submit(n, ty, c, tr) ==
  LET ok == IF Variant = "launch" THEN ~Clashes(ds, n, now)
            ELSE IF Variant = "overwrite" THEN c # "" ELSE Accept(ds, n, now, c # "")
      d == [name |-> n, stamp |-> now, cfg |-> c, type |-> ty, tr |-> tr, mt |-> mod]
      over == Variant = "overwrite" /\ Clashes(ds, n, now)
      at == IF over THEN CHOOSE i \in DOMAIN ds : ds[i].name = n /\ ds[i].stamp = now ELSE Len(ds) + 1
  IN /\ Log(<<"submit", n, ty, c, tr>>)
     /\ mod' = mod + 1
     /\ IF ok THEN ds' = (IF over THEN [ds EXCEPT ![at] = d] ELSE Append(ds, d)) /\ out' = <<at, n>>
        ELSE ds' = ds /\ out' = NONE
     /\ UNCHANGED now
Resume(n) ==
  LET S == IF Variant = "prefix" THEN {i \in DOMAIN ds : ds[i].name = n \/ <<n, ds[i].name>> \in Prefixes} ELSE Own(ds, n)
      pick == IF Variant = "name" THEN {i \in S : \A j \in S : ds[j].stamp <= ds[i].stamp} ELSE Latest(ds, S)
  IN /\ Log(<<"resume", n>>)
     /\ out' = IF S = {} THEN NONE ELSE <<CHOOSE i \in pick : TRUE, n>>
     /\ UNCHANGED <<ds, now, mod>>
Write(i) ==                        \* a running job writes its records
  /\ i \in DOMAIN ds /\ ds' = [ds EXCEPT ![i].mt = mod] /\ mod' = mod + 1 /\ out' = NONE /\ UNCHANGED now
  /\ Log(<<"write", i>>)
Next == /\ Len(hist) < MaxH
        /\ (\/ Tick \/ \E n \in Names : Resume(n)
            \/ \E n \in Names, ty \in Types, c \in Cfgs, tr \in Trs : Submit(n, ty, c, tr)
            \/ \E i \in 1..Len(ds) : Write(i))
Spec == Init /\ [][Next]_vars

(* a launch is of a configured experiment of exactly the name asked for, and on resuming the last modified one *)
Right == out # NONE => /\ ds[out[1]].name = out[2] /\ ds[out[1]].cfg # ""
                       /\ (op[1] = "resume" => \A j \in Own(ds, out[2]) : ds[j].mt <= ds[out[1]].mt)
Found == op[1] = "resume" /\ Own(ds, op[2]) # {} => out # NONE
Fresh == \A i, j \in DOMAIN ds : i # j => <<ds[i].name, ds[i].stamp>> # <<ds[j].name, ds[j].stamp>>
(* directories are never changed but for their time of modification *)
Kept == [][\A i \in DOMAIN ds : [ds[i] EXCEPT !.mt = 0] = [ds'[i] EXCEPT !.mt = 0]]_vars
(* histories in which the last modified experiment of the resumed name is not the newest, or another name has a newer one *)
PrintPick == Len(hist) = MaxH /\ op[1] = "resume" /\ Own(ds, op[2]) # {} /\
             (\/ \E i, j \in Own(ds, op[2]) : ds[i].stamp < ds[j].stamp /\ ds[i].mt > ds[j].mt
              \/ \A i \in Own(ds, op[2]) : \E j \in DOMAIN ds : ds[j].name # op[2] /\ ds[j].mt > ds[i].mt)
             => PrintT(ToJson([h |-> hist]))
PrintHist == Len(hist) = MaxH => PrintT(ToJson([h |-> hist]))
=============================================================================
