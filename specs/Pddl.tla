-------------------------------- MODULE Pddl --------------------------------
(* Semantics of the planning language the two problems are written in: a state is a set of ground facts, a fact is a tuple of
   names <<predicate, arg, ...>>.  A formula is a record: [op |-> "atom", a |-> <<p, t...>>], "and"/"or" with xs, "not" with x,
   "eq" with a = <<t, u>>, "exists" with vars and x.  Terms beginning with "?" are variables.
   Actions: [name, params, pre, add, del]; derived facts: [head, x]; streams: [name, in, dom, out, cert]. *)
EXTENDS Integers, Sequences, FiniteSets, TLC
Rng(s) == {s[i] : i \in DOMAIN s}
Empty == [x \in {} |-> ""]
IsVar(B, t) == t \in DOMAIN B
Val(B, t) == IF t \in DOMAIN B THEN B[t] ELSE t
Sub(B, a) == [i \in DOMAIN a |-> Val(B, a[i])]
(* extensions of the binding B under which the atom a (variables: vs) is one of the facts F *)
RECURSIVE Unify(_, _, _, _, _)
Unify(B, a, f, i, vs) ==
  IF i > Len(a) THEN {B}
  ELSE IF a[i] \in DOMAIN B THEN (IF B[a[i]] = f[i] THEN Unify(B, a, f, i + 1, vs) ELSE {})
  ELSE IF a[i] \in vs THEN Unify((a[i] :> f[i]) @@ B, a, f, i + 1, vs)
  ELSE IF a[i] = f[i] THEN Unify(B, a, f, i + 1, vs) ELSE {}
(* facts are kept by predicate: F[p] is the set of facts with predicate p *)
Index(X) == [p \in {f[1] : f \in X} |-> {f \in X : f[1] = p}]
Fits(B, a, f) == Len(f) = Len(a) /\ \A i \in 2..Len(a) : (a[i] \in DOMAIN B => B[a[i]] = f[i])
MatchAtom(B, a, F, vs) == IF a[1] \notin DOMAIN F THEN {} ELSE UNION {Unify(B, a, f, 1, vs) : f \in {g \in F[a[1]] : Fits(B, a, g)}}
RECURSIVE Ways(_, _, _, _)
(* all bindings (extending B) under which formula x holds; every variable of x must get bound by positive atoms *)
Ways(x, B, F, vs) ==
  CASE x.op = "atom" -> MatchAtom(B, x.a, F, vs)
    [] x.op = "and" -> LET RECURSIVE All(_, _)
                           All(k, Bs) == IF k > Len(x.xs) \/ Bs = {} THEN Bs ELSE All(k + 1, UNION {Ways(x.xs[k], b, F, vs) : b \in Bs})
                       IN All(1, {B})
    [] x.op = "or" -> UNION {Ways(x.xs[k], B, F, vs) : k \in DOMAIN x.xs}
    [] x.op = "not" -> IF Ways(x.x, B, F, vs) = {} THEN {B} ELSE {}
    [] x.op = "eq" -> IF Val(B, x.a[1]) = Val(B, x.a[2]) THEN {B} ELSE {}
    [] x.op = "exists" -> IF Ways(x.x, B, F, vs \cup Rng(x.vars)) # {} THEN {B} ELSE {}
Holds(x, F) == Ways(x, Empty, F, {}) # {}
(* the derived facts, one stratum *)
Derived(F, ders) == UNION {{<<ders[d].head[1]>> \o [i \in 1..Len(ders[d].head)-1 |-> B[ders[d].head[i+1]]] :
                                    B \in Ways(ders[d].x, Empty, F, Rng(ders[d].head) \cup Rng(ders[d].free))} : d \in DOMAIN ders}
(* ground actions possible in F (which includes derived facts) *)
Instances(act, F) == {[i \in DOMAIN act.params |-> B[act.params[i]]] : B \in Ways(act.pre, Empty, F, Rng(act.params) \cup Rng(act.free))}
Bind(act, args) == [v \in Rng(act.params) |-> args[CHOOSE i \in DOMAIN act.params : act.params[i] = v]]
After(act, args, F) ==
  LET B == Bind(act, args) IN (F \ {Sub(B, act.del[i]) : i \in DOMAIN act.del}) \cup {Sub(B, act.add[i]) : i \in DOMAIN act.add}
(* everything streams can ever certify: an output is named after its stream and inputs *)
RECURSIVE Join(_)
Join(s) == IF s = <<>> THEN "" ELSE Head(s) \o "," \o Join(Tail(s))
OutName(s, k, ins) == s \o "." \o ToString(k) \o "(" \o Join(ins) \o ")"
Calls(st, F) == {[i \in DOMAIN st.in |-> B[st.in[i]]] : B \in Ways(st.dom, Empty, F, Rng(st.in) \cup Rng(st.free))}
Certified(st, ins) ==
  LET B == [v \in Rng(st.in) \cup Rng(st.out) |-> IF v \in Rng(st.in) THEN ins[CHOOSE i \in DOMAIN st.in : st.in[i] = v]
                                                  ELSE OutName(st.name, CHOOSE i \in DOMAIN st.out : st.out[i] = v, ins)] IN
  {Sub(B, st.cert[i]) : i \in DOMAIN st.cert}
RECURSIVE Closure(_, _)
Closure(X, sts) == LET F == Index(X)  G == X \cup UNION {UNION {Certified(sts[s], c) : c \in Calls(sts[s], F)} : s \in DOMAIN sts} IN
                   IF G = X THEN X ELSE Closure(G, sts)
=============================================================================
