------------------------------- MODULE Csscpa -------------------------------
(* The clause-collection filter.  State: the set of held clauses.  A statement offers a clause; it is rejected when it is a tautology or subsumed,
   accepted when it improves the collection (weight of what it subsumes, or average weight), when it contradicts a held unit, or when it is forced;
   an accepted clause replaces exactly the clauses it subsumes.
   Clauses and subsumption as in Subsume; q carries vt (sorts of variables, twice the number of variables of a clause) and ft (sorts of symbols). *)
EXTENDS Subsume, FiniteSets
RECURSIVE Subterms(_), TW(_)
Subterms(t) == {t} \cup (IF IsVar(t) THEN {} ELSE UNION {Subterms(t[i]) : i \in 2..Len(t)})
TW(t) == IF IsVar(t) THEN 1 ELSE 2 + (LET RECURSIVE S(_) S(i) == IF i > Len(t) THEN 0 ELSE TW(t[i]) + S(i + 1) IN S(2))
Weight(C) == LET RECURSIVE S(_) S(i) == IF i > Len(C) THEN 0 ELSE TW(C[i].l) + TW(C[i].r) + S(i + 1) IN S(1)
\* congruence closure of the negative literals, variables as constants
Terms(C) == UNION {Subterms(C[i].l) \cup Subterms(C[i].r) : i \in DOMAIN C}
Merge(rep, a, b) == [t \in DOMAIN rep |-> IF rep[t] = rep[a] THEN rep[b] ELSE rep[t]]
Cong(rep, a, b) == ~IsVar(a) /\ ~IsVar(b) /\ a[1] = b[1] /\ \A i \in 2..Len(a) : rep[a[i]] = rep[b[i]]
RECURSIVE CloseOver(_), AddEqs(_,_,_)
CloseOver(rep) == LET P == {<<a, b>> \in (DOMAIN rep) \X (DOMAIN rep) : rep[a] # rep[b] /\ Len(a) = Len(b) /\ Cong(rep, a, b)} IN
                  IF P = {} THEN rep ELSE LET p == CHOOSE p \in P : TRUE IN CloseOver(Merge(rep, p[1], p[2]))
AddEqs(rep, C, i) == IF i > Len(C) THEN rep ELSE AddEqs(IF C[i].p = 0 THEN Merge(rep, C[i].l, C[i].r) ELSE rep, C, i + 1)
Tautology(C) == \/ \E i \in DOMAIN C : C[i].p = 1 /\ C[i].l = C[i].r
                \/ /\ (\E i \in DOMAIN C : C[i].p = 1)  /\ (\E i \in DOMAIN C : C[i].p = 0)
                   /\ LET rep == CloseOver(AddEqs([t \in Terms(C) |-> t], C, 1)) IN \E i \in DOMAIN C : C[i].p = 1 /\ rep[C[i].l] = rep[C[i].r]
Sub(C, D, q) == C = <<>> \/ Subsumes(C, D, q)
RECURSIVE Shift(_,_)
Shift(t, n) == IF IsVar(t) THEN <<0, t[2] + n>> ELSE [i \in DOMAIN t |-> IF i = 1 THEN t[1] ELSE Shift(t[i], n)]
Opposite(C, D, q) == /\ Len(C) = 1 /\ Len(D) = 1 /\ C[1].p # D[1].p
   /\ LET n == Len(q.vt) \div 2  a == C[1]  l == Shift(D[1].l, n)  r == Shift(D[1].r, n) IN
      Unify(<< <<a.l, l>>, <<a.r, r>> >>, Id(2 * n), q.vt, q.ft) # <<>> \/ Unify(<< <<a.l, r>>, <<a.r, l>> >>, Id(2 * n), q.vt, q.ft) # <<>>
RECURSIVE Ground(_)
Ground(t) == ~IsVar(t) /\ \A i \in 2..Len(t) : Ground(t[i])
GroundUnit(C) == Ground(C[1].l) /\ Ground(C[1].r)
SumOf(S, f) == LET RECURSIVE G(_) G(X) == IF X = {} THEN 0 ELSE LET x == CHOOSE x \in X : TRUE IN f[x] + G(X \ {x}) IN G(S)
\* the step: H the held clauses (numbers into cl), c the offered one, deltas in quarters
Subsumers(H, c, cl, q) == {h \in H : Sub(cl[h], cl[c], q)}
Subsumed(H, c, cl, q) == {h \in H : Sub(cl[c], cl[h], q)}
HW(H, cl) == SumOf(H, [h \in H |-> Weight(cl[h])])
HL(H, cl) == SumOf(H, [h \in H |-> Len(cl[h])])
Improves(H, c, wd, ad, cl, q) ==
  LET W == HW(H, cl)  w == Weight(cl[c])  n == Cardinality(H) IN
  \/ 4 * (HW(Subsumed(H, c, cl, q), cl) - w) > wd * W
  \/ n > 0 /\ 4 * (W + w) * n < (4 - ad) * W * (n + 1)
\* possible outcomes of a statement
Outcomes(H, c, force, wd, ad, cl, q) ==
  IF Tautology(cl[c]) THEN {"tautology"}
  ELSE IF Subsumers(H, c, cl, q) # {} THEN {"subsumed"}
  ELSE IF Improves(H, c, wd, ad, cl, q) THEN {"improved"}
  ELSE LET opp == {h \in H : Opposite(cl[c], cl[h], q)}
           plain == IF force THEN "forced" ELSE "weighty"
       IN IF opp = {} THEN {plain} ELSE IF \E h \in opp : GroundUnit(cl[c]) \/ GroundUnit(cl[h]) THEN {"contradicts"}
          ELSE {"contradicts", plain}     \* clauses share variable names: a unifier may be missed
Accepting == {"improved", "contradicts", "forced"}
After(H, c, out, cl, q) == IF out \in Accepting THEN (H \ Subsumed(H, c, cl, q)) \cup {c} ELSE H
=============================================================================
