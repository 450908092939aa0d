------------------------------- MODULE Kitchen -------------------------------
(* Cleaning and cooking with an arm: what a plan may do.
   A world: confs; kin = set of <<object, pose, grasp, conf>>; pre, post = sets of confs; sup = set of <<object, pose, surface>>;
   stack = set of <<object, surface>>; sinks, stoves; at0; grasps = set of <<object, grasp>>; q0.
   State: conf, grasp (<<object, grasp>> or <<>>), at[o] (a pose or "none"), can (a motion may come next), cleaned, cooked,
   last (kind of the last motion), from (the pose the held object was picked at: "none" once moved). *)
EXTENDS Integers, Sequences, FiniteSets, TLC
LOCAL OutN(s, k, ins) == LET RECURSIVE J(_)
                             J(x) == IF x = <<>> THEN "" ELSE Head(x) \o "," \o J(Tail(x)) IN s \o "." \o ToString(k) \o "(" \o J(ins) \o ")"
KStart(W) == [conf |-> W.q0, grasp |-> <<>>, at |-> W.at0, can |-> TRUE, cleaned |-> {}, cooked |-> {}, was |-> {}]
On(W, S, o, r) == \E s \in W.sup : s[1] = o /\ s[3] = r /\ s[2] = S.at[o]
KEnabled(W, S) ==
  (IF S.can /\ S.grasp = <<>> THEN {<<"move_free", <<S.conf, q, OutN(W.names.free, 1, <<S.conf, q>>)>>>> : q \in W.confs} ELSE {})
  \cup (IF S.can /\ S.grasp # <<>>
        THEN {<<"move_holding", <<S.conf, q, S.grasp[1], S.grasp[2], OutN(W.names.hold, 1, <<S.conf, q, S.grasp[1], S.grasp[2]>>)>>>> : q \in W.pre}
             \cup (IF S.conf \in W.pre THEN {<<"move_insert", <<S.conf, q, S.grasp[1], S.grasp[2], OutN(W.names.insert, 1, <<S.conf, q, S.grasp[1], S.grasp[2]>>)>>>> : q \in W.post} ELSE {})
        ELSE {})
  \cup (IF S.grasp = <<>> THEN {<<"pick", k>> : k \in {k \in W.kin : k[4] = S.conf /\ k[2] = S.at[k[1]]}}
        ELSE {<<"place", k>> : k \in {k \in W.kin : k[4] = S.conf /\ <<k[1], k[3]>> = S.grasp}})
  \cup {<<"clean", x>> : x \in {x \in W.stack : x[2] \in W.sinks /\ On(W, S, x[1], x[2])}}
  \cup {<<"cook", x>> : x \in {x \in W.stack : x[2] \in W.stoves /\ On(W, S, x[1], x[2]) /\ x[1] \in S.cleaned}}
KAfter(W, S, a, x) ==
  CASE a \in {"move_free", "move_holding", "move_insert"} -> [S EXCEPT !.conf = x[2], !.can = FALSE]
    [] a = "pick" -> [S EXCEPT !.grasp = <<x[1], x[3]>>, !.at[x[1]] = "none", !.can = TRUE]
    [] a = "place" -> [S EXCEPT !.grasp = <<>>, !.at[x[1]] = x[2], !.can = TRUE]
    [] a = "clean" -> [S EXCEPT !.cleaned = @ \cup {x[1]}, !.was = @ \cup {x[1]}]
    [] a = "cook" -> [S EXCEPT !.cooked = @ \cup {x[1]}, !.cleaned = @ \ {x[1]}]
KGoal(W, S) == S.conf = W.q0 /\ DOMAIN W.at0 \subseteq S.cleaned
KSane(W, S) == /\ \A o \in DOMAIN S.at : (S.at[o] = "none") = (S.grasp # <<>> /\ S.grasp[1] = o)
               /\ S.conf \in W.confs
=============================================================================
