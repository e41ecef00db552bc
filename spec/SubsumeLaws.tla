----------------------------- MODULE SubsumeLaws -----------------------------
(* Laws of the subsumption relation over all small clauses: reflexive, transitive, stable, implied-literal semantics by grounding. *)
EXTENDS Subsume
\* symbols: 1 = a, 2 = b, 3 = f/1, 4 = p/1 (sort $o), 5 = $true; two variables
q == [vt |-> <<1, 1>>, ft |-> <<1, 1, 1, 2, 2>>]
T == {<<0, 1>>, <<0, 2>>, <<1>>, <<3, <<0, 1>>>>, <<3, <<1>>>>, <<3, <<2>>>>}
G == {<<1>>, <<2>>, <<3, <<1>>>>}
At == {[l |-> <<4, t>>, r |-> <<5>>] : t \in {<<0, 1>>, <<3, <<0, 1>>>>}} \cup {[l |-> s, r |-> t] : s \in {<<0, 1>>, <<3, <<0, 2>>>>, <<1>>}, t \in {<<1>>, <<3, <<1>>>>, <<3, <<0, 1>>>>}}
Lit == {[p |-> s, l |-> a.l, r |-> a.r] : s \in {0, 1}, a \in {x \in At : x.l # x.r}}
VARIABLES C, D
Cl == {<<x>> : x \in Lit} \cup {<<x, y>> : x \in Lit, y \in {z \in Lit : z.l[1] # 0}}
Init == C \in Cl /\ D \in Cl
Next == UNCHANGED <<C, D>>
Sg == {<<x, y>> : x \in {<<1>>, <<3, <<2>>>>}, y \in {<<2>>}}
App(s, X) == [i \in DOMAIN X |-> [p |-> X[i].p, l |-> Apply(s, X[i].l), r |-> Apply(s, X[i].r)]]
Refl == Subsumes(C, C, q)
Stable == Subsumes(C, D, q) => \A s \in Sg : Subsumes(C, App(s, D), q)
Weaken == Subsumes(C, D, q) => \A x \in {D[1], C[1]} : Subsumes(C, Append(D, x), q) /\ Subsumes(C, <<x>> \o D, q)
Trans == (Len(C) = 2 /\ Len(D) = 2 /\ Subsumes(C, D, q)) => \A x \in Lit : LET E == Append(App(<< <<1>>, <<2>> >>, D), x) IN Subsumes(C, E, q)
=============================================================================
