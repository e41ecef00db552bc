------------------------------- MODULE Ground -------------------------------
(* Grounding of clause sets without (non-constant) function symbols.
   literal [s: 0|1 sign, p: predicate, a: sequence of arguments; an argument > 0 is a constant, < 0 a variable].
   The meaning of a clause set with constants K is the propositional set of all its instances over K (K is not empty). *)
EXTENDS Integers, Sequences, FiniteSets
Ran(s) == {s[i] : i \in DOMAIN s}
VarsOf(c) == {x \in UNION {Ran(l.a) : l \in Ran(c)} : x < 0}
InstLit(l, g) == <<l.s, l.p, [i \in DOMAIN l.a |-> IF l.a[i] < 0 THEN g[l.a[i]] ELSE l.a[i]]>>
Inst(c, g) == {InstLit(l, g) : l \in Ran(c)}
Neg(l) == <<1 - l[1], l[2], l[3]>>
Taut(C) == \E l \in C : Neg(l) \in C
Grounding(P, K) == UNION {{Inst(c, g) : g \in [VarsOf(c) -> K]} : c \in Ran(P)}
\* Davis-Putnam-Logemann-Loveland as the definition of satisfiability of a finite set of finite ground clauses
Set(S, l) == {C \ {Neg(l)} : C \in {D \in S : l \notin D}}
RECURSIVE Sat(_)
Sat(S) == IF S = {} THEN TRUE ELSE IF {} \in S THEN FALSE ELSE
  LET U == {C \in S : Cardinality(C) = 1} IN
  IF U # {} THEN LET l == CHOOSE x \in CHOOSE C \in U : TRUE : TRUE IN Sat(Set(S, l))
  ELSE LET L == UNION S  pure == {l \in L : Neg(l) \notin L} IN
  IF pure # {} THEN Sat({C \in S : C \cap pure = {}})
  ELSE LET l == CHOOSE x \in CHOOSE C \in S : \A D \in S : Cardinality(C) <= Cardinality(D) : TRUE IN Sat(Set(S, l)) \/ Sat(Set(S, Neg(l)))
(* What an output O (set of ground clauses) of the grounder has to satisfy for the grounding G.
   opt: split, usub (unit subsumption), ures (unit resolution), taut (tautology deletion), con (purity constraints).
   New: the predicates introduced by splitting. *)
Old(C, New) == {l \in C : l[2] \notin New}
Instances(G, O, New) == \A C \in O : \E D \in G : Old(C, New) \subseteq D
Exact(G, O) == \A C \in O : C \in G                       \* nothing is resolved away
Covered(G, O, taut) == \A D \in G : (taut /\ Taut(D)) \/ \E C \in O : C \subseteq D
Why(G, O, New, opt) ==
  IF ~Instances(G, O, New) THEN "not an instance"
  ELSE IF opt.split = 0 /\ opt.ures = 0 /\ ~Exact(G, O) THEN "altered instance"
  ELSE IF opt.split = 0 /\ opt.con = 0 /\ ~Covered(G, O, opt.taut = 1) THEN "instance lost"
  ELSE IF opt.split = 0 /\ opt.taut = 1 /\ (\E C \in O : Taut(C)) THEN "tautology kept"
  ELSE IF Sat(G) # Sat(O) THEN "satisfiability changed" ELSE ""
=============================================================================
