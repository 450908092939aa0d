------------------------------ MODULE Commands ------------------------------
(* Executable commands: sequences of parts.  A part is a path [k |-> "path", way |-> way points, att |-> carried bodies],
   or fixes or frees a body [k |-> "fix" | "free", b |-> body].  Way points are numbers; 0 stands for points in between. *)
EXTENDS Integers, Sequences, FiniteSets, TLC
Rng(s) == {s[i] : i \in DOMAIN s}
RevSeq(s) == [i \in DOMAIN s |-> s[Len(s) + 1 - i]]
Other(k) == IF k = "fix" THEN "free" ELSE "fix"
RevPart(x) == IF x.k = "path" THEN [x EXCEPT !.way = RevSeq(@)] ELSE [x EXCEPT !.k = Other(@)]
Rev(c) == [i \in DOMAIN c |-> RevPart(c[Len(c) + 1 - i])]
(* moving through a command: where the robot is and where each body was last carried to; one snapshot per way point *)
RECURSIVE PlayWay(_, _, _)
PlayWay(way, att, st) == IF way = <<>> THEN <<>>
  ELSE LET n == [conf |-> Head(way), at |-> [b \in DOMAIN st.at |-> IF b \in Rng(att) THEN Head(way) ELSE st.at[b]]] IN <<n>> \o PlayWay(Tail(way), att, n)
RECURSIVE Play(_, _)
Play(c, st) == IF c = <<>> THEN <<>>
  ELSE LET r == IF Head(c).k = "path" THEN PlayWay(Head(c).way, Head(c).att, st) ELSE <<>> IN
       r \o Play(Tail(c), IF r = <<>> THEN st ELSE r[Len(r)])
(* the same command handed to controllers *)
RECURSIVE Control(_)
Control(c) == IF c = <<>> THEN <<>>
  ELSE (IF Head(c).k = "path" THEN [i \in DOMAIN Head(c).way |-> <<"go", Head(c).way[i]>>] ELSE << <<Head(c).k, Head(c).b>> >>) \o Control(Tail(c))
Bodies(c, robot) == UNION {IF c[i].k = "path" THEN {robot} \cup Rng(c[i].att) ELSE {robot, c[i].b} : i \in DOMAIN c}
(* n points between any two way points *)
Interleave(way, n) == IF Len(way) = 0 THEN way ELSE [i \in 1..(Len(way) + n * (Len(way) - 1)) |->
  IF (i - 1) % (n + 1) = 0 THEN way[((i - 1) \div (n + 1)) + 1]
  ELSE LET a == ((i - 1) \div (n + 1)) + 1 IN IF way[a] = way[a + 1] THEN way[a] ELSE 0]
Refined(c, n) == [i \in DOMAIN c |-> IF c[i].k = "path" THEN [c[i] EXCEPT !.way = Interleave(@, n)] ELSE c[i]]
(* which bodies are fixed to the robot after the events e, given H before; {"bad"} when an event cannot happen *)
RECURSIVE Held(_, _)
Held(e, H) == IF e = <<>> THEN H
  ELSE CASE Head(e)[1] = "fix" -> IF Head(e)[2] \in H THEN {"bad"} ELSE Held(Tail(e), H \cup {Head(e)[2]})
         [] Head(e)[1] = "free" -> IF Head(e)[2] \notin H THEN {"bad"} ELSE Held(Tail(e), H \ {Head(e)[2]})
         [] OTHER -> Held(Tail(e), H)

(* from plans to commands.  Carrying: steps <<name, rover, trajectory, object>>; "unknown" names have no meaning *)
RECURSIVE CarryCmd(_)
CarryCmd(p) == IF p = <<>> THEN <<>>
  ELSE LET s == Head(p) IN << <<"go", s[3]>>, <<IF s[1] = "pick" THEN "fix" ELSE "free", s[2], s[4]>> >> \o CarryCmd(Tail(p))
CarryKnown(p) == \A i \in DOMAIN p : p[i][1] \in {"pick", "place"}
(* kitchen: steps <<name, parts of the motion>> *)
RECURSIVE KitchenCmd(_)
KitchenCmd(p) == IF p = <<>> THEN <<>>
  ELSE (IF Head(p)[1] \in {"move", "move_free", "move_holding", "move_insert"} THEN Head(p)[2] ELSE <<>>) \o KitchenCmd(Tail(p))
=============================================================================
