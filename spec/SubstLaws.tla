------------------------------ MODULE SubstLaws ------------------------------
(* The reference algorithms of Subst are right: over all pairs of small terms, Unify finds a unifier exactly when one exists among a large set of
   substitutions, it is most general for all of those; Match finds the unique matcher.  Symbols 1: a, 2: b (sort 2), 3: f/1, 4: h/2. *)
EXTENDS Subst
CONSTANT Big
vt == <<1, 1, 2>>
ft == <<1, 2, 1, 1>>
V == {<<0, 1>>, <<0, 2>>}
D0 == V \cup {<<1>>}
D1 == D0 \cup {<<3, t>> : t \in D0} \cup {<<4, s, t>> : s, t \in D0}
D2 == D1 \cup {<<3, <<3, t>>>> : t \in V} \cup {<<4, s, t>> : s \in {<<3, <<0, 1>>>>, <<3, <<0, 2>>>>, <<4, <<0, 1>>, <<0, 2>>>>}, t \in D0 \cup {<<3, <<0, 2>>>>}} \cup {<<0, 3>>, <<2>>}
Terms == IF Big THEN D2 ELSE D1 \cup {<<0, 3>>, <<2>>}
Sigmas == {<<x, y, <<2>>>> : x, y \in IF Big THEN D1 ELSE {t \in D1 : Len(t) < 3} \cup {<<4, <<1>>, <<1>>>>}}
VARIABLES s, t, st
Init == s \in Terms /\ t \in Terms /\ st = 0
Next == st = 0 /\ st' = 1 /\ UNCHANGED <<s, t>>
E0 == << <<s, t>> >>
Sound == LET r == Unify(E0, Id(3), vt, ft) IN r # <<>> => IsMgu(E0, Id(3), r[1], vt, ft)
General == LET r == Unify(E0, Id(3), vt, ft) IN
  \A sg \in Sigmas : Apply(sg, s) = Apply(sg, t) => r # <<>> /\ \A v \in 1..3 : Apply(sg, r[1][v]) = sg[v]
MatchRight == LET r == Match(E0, NoBind(3), vt, ft) full(m) == [v \in 1..3 |-> IF m[v] = <<>> THEN <<0, v>> ELSE m[v]] IN
  /\ r # <<>> => Apply(full(r[1]), s) = t
  /\ \A sg \in Sigmas : Apply(sg, s) = t => r # <<>> /\ \A v \in 1..3 : r[1][v] # <<>> => r[1][v] = sg[v]
=============================================================================
