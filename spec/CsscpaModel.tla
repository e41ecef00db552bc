----------------------------- MODULE CsscpaModel -----------------------------
(* All sessions with the filter over a small universe of clauses: the held clauses never contain a tautology nor a clause another one subsumes. *)
EXTENDS Csscpa, TLC
\* symbols: 1 $true, 2 a, 3 f/1, 4 p/1
V(i) == <<0, i>>  A == <<2>>  F(t) == <<3, t>>  P(t) == [p |-> 1, l |-> <<4, t>>, r |-> <<1>>]  N(t) == [p |-> 0, l |-> <<4, t>>, r |-> <<1>>]  E(s, t) == [p |-> 1, l |-> s, r |-> t]
CL == << <<P(V(1))>>, <<P(A)>>, <<N(A)>>, <<N(F(V(1)))>>, <<P(A), N(F(A))>>, <<P(V(1)), P(F(V(2)))>>, <<P(A), P(F(A)), E(A, F(A))>>, <<E(F(V(1)), V(1))>>, <<E(F(A), A)>>, <<P(V(1)), N(V(1))>> >>
Q == [vt |-> [i \in 1..4 |-> 1], ft |-> <<2, 1, 1, 2>>]
VARIABLES H, last
Init == H = {} /\ last = ""
Next == \E c \in DOMAIN CL, force \in BOOLEAN, d \in {0, 2} : \E out \in Outcomes(H, c, force, d, d, CL, Q) : H' = After(H, c, out, CL, Q) /\ last' = out
NoTautology == \A h \in H : ~Tautology(CL[h])
Antichain == \A g \in H, h \in H : g # h => ~Sub(CL[g], CL[h], Q)
Announced == last = "contradicts" => \E g \in H, h \in H : Opposite(CL[g], CL[h], Q)
=============================================================================
