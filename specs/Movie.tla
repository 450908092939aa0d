-------------------------------- MODULE Movie --------------------------------
(* The film of a roadmap: its samples appear in order, then its connections, then the legs of the solution; without a solution
   everything turns red.  A frame shows [n |-> samples, e |-> connections so far, g |-> legs so far, red |-> BOOLEAN]. *)
EXTENDS Integers, Sequences, FiniteSets, TLC
Rng(s) == {s[i] : i \in DOMAIN s}
Blank == [n |-> 0, e |-> {}, g |-> 0, red |-> FALSE]
(* what may change from one frame to the next; N samples, E connections, L legs, F found *)
Grows(a, b, nb, eb) == b.n >= a.n /\ b.n - a.n <= nb /\ a.e \subseteq b.e /\ Cardinality(b.e \ a.e) <= eb /\ b.g - a.g \in {0, 1}
True(b, N, E, L, F) == b.n <= N /\ b.e \subseteq E /\ b.g <= L /\ (F => ~b.red)
Ordered(b, N, E) == (b.e # {} => b.n = N) /\ (b.g > 0 \/ b.red => b.n = N /\ b.e = E)
Done(b, N, E, L, F) == b.n = N /\ b.e = E /\ (F => b.g = L) /\ (~F => b.red)
=============================================================================
