------------------------------- MODULE Carry -------------------------------
(* Carrying with a rover: what a plan may do.  Independent of any planning language.
   A world: v the rover, q0 its start, poses[o] the known poses of object o.  A configuration is known if it is q0 or the
   inverse-kinematics answer for some object and pose; a motion exists between any two known configurations, empty or loaded.
   State: conf, held (an object or "none"), at[o] (a pose or "none"). *)
EXTENDS Integers, Sequences, FiniteSets, TLC
LOCAL OutN(s, k, ins) == LET RECURSIVE J(_)
                             J(x) == IF x = <<>> THEN "" ELSE Head(x) \o "," \o J(Tail(x)) IN s \o "." \o ToString(k) \o "(" \o J(ins) \o ")"
Ik(W, o, p) == OutN(W.names.ik, 1, <<W.v, o, p>>)
Motion(W, q1, q2) == OutN(W.names.move, 1, <<W.v, q1, q2>>)
Loaded(W, q1, q2, o) == OutN(W.names.hold, 1, <<W.v, q1, q2, o>>)
Objs(W) == DOMAIN W.poses
CStart(W) == [conf |-> W.q0, held |-> "none", at |-> W.at0]
(* what can be done: <<action, arguments>> *)
CEnabled(W, S) ==
  IF S.held = "none"
  THEN {<<"pick", <<W.v, S.conf, Motion(W, S.conf, Ik(W, o, S.at[o])), Ik(W, o, S.at[o]), S.at[o], o>>>> : o \in {o \in Objs(W) : S.at[o] # "none"}}
  ELSE {<<"place", <<W.v, S.conf, Loaded(W, S.conf, Ik(W, S.held, p), S.held), Ik(W, S.held, p), p, S.held>>>> : p \in {W.poses[S.held][i] : i \in DOMAIN W.poses[S.held]}}
CAfter(W, S, a, x) ==
  IF a = "pick" THEN [conf |-> x[4], held |-> x[6], at |-> [S.at EXCEPT ![x[6]] = "none"]]
  ELSE [conf |-> x[4], held |-> "none", at |-> [S.at EXCEPT ![x[6]] = x[5]]]
CGoal(W, S) == \A o \in Objs(W) : S.at[o] = W.goal[o]
CSane(W, S) == /\ S.held \in Objs(W) \cup {"none"}
               /\ \A o \in Objs(W) : (S.at[o] = "none") = (S.held = o)
               /\ S.held # "none" => S.conf # "" 
=============================================================================
