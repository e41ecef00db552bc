------------------------------- MODULE Subsume -------------------------------
(* Subsumption.  A clause is a sequence of literals [p sign, l, r]; an atom P is the equation P = $true.
   C subsumes D: some instance of C is a sub-multiset of D, equations taken up to symmetry;
   a positive unit equation also subsumes D when it makes the two sides of a positive literal of D equal in one step. *)
EXTENDS Subst
OneMatch(a, b, m, vt, ft) == LET d == Match(<< <<a.l, b.l>>, <<a.r, b.r>> >>, m, vt, ft)  s == Match(<< <<a.l, b.r>>, <<a.r, b.l>> >>, m, vt, ft) IN d \o s
RECURSIVE SubLits(_,_,_,_,_,_)
SubLits(C, i, D, used, m, q) ==
  \/ i > Len(C)
  \/ \E j \in DOMAIN D \ used : C[i].p = D[j].p /\ LET ms == OneMatch(C[i], D[j], m, q.vt, q.ft) IN \E k \in DOMAIN ms : SubLits(C, i + 1, D, used \cup {j}, ms[k], q)
None(q) == NoBind(Len(q.vt))
Top(u, s, t, q) == OneMatch(u, [l |-> s, r |-> t], None(q), q.vt, q.ft) # <<>>
Diff(s, t) == {i \in 2..Len(s) : s[i] # t[i]}
Same(s, t) == ~IsVar(s) /\ ~IsVar(t) /\ s[1] = t[1]
RECURSIVE OneStep(_,_,_,_), Strong(_,_,_,_)
\* the equation u shows s = t in one step
OneStep(u, s, t, q) == Top(u, s, t, q) \/ (Same(s, t) /\ Cardinality(Diff(s, t)) = 1 /\ LET i == CHOOSE i \in Diff(s, t) : TRUE IN OneStep(u, s[i], t[i], q))
\* the equations us show s = t by one step at parallel positions
Strong(us, s, t, q) == (\E u \in us : Top(u, s, t, q)) \/ (Same(s, t) /\ Diff(s, t) # {} /\ \A i \in Diff(s, t) : Strong(us, s[i], t[i], q))
UnitSub(u, D, q) == \E j \in DOMAIN D : D[j].p = u.p /\ (IF u.p = 1 THEN OneStep(u, D[j].l, D[j].r, q) ELSE Top(u, D[j].l, D[j].r, q))
Subsumes(C, D, q) == IF Len(C) = 1 THEN UnitSub(C[1], D, q) ELSE SubLits(C, 1, D, {}, None(q), q)
\* simplify-reflect: which literals of D may be cut off
CutPos(us, lit, q) == lit.p = 0 /\ \E u \in us : u.p = 1 /\ OneStep(u, lit.l, lit.r, q)
CutPosStrong(us, lit, q) == lit.p = 0 /\ Strong({u \in us : u.p = 1}, lit.l, lit.r, q)
CutNeg(us, lit, q) == lit.p = 1 /\ \E u \in us : u.p = 0 /\ Top(u, lit.l, lit.r, q)
Flip(D, j) == [D EXCEPT ![j].p = 1 - @]
Drop(D, j) == SubSeq(D, 1, j - 1) \o SubSeq(D, j + 1, Len(D))
\* contextual simplify-reflect: literal j may be cut off when the clause with j negated is subsumed
CtxStep(D, S, j, q) == \E C \in S : Subsumes(C, Flip(D, j), q)
Count(x, D) == Cardinality({i \in DOMAIN D : D[i] = x})
BagEq(D, R) == Len(D) = Len(R) /\ \A i \in DOMAIN D : Count(D[i], D) = Count(D[i], R)
RECURSIVE CtxReach(_,_,_,_)
CtxReach(D, R, S, q) == BagEq(D, R) \/ (Len(D) > Len(R) /\ \E j \in DOMAIN D : CtxStep(D, S, j, q) /\ CtxReach(Drop(D, j), R, S, q))
CtxDone(R, S, q) == Len(R) < 2 \/ \A j \in DOMAIN R : ~CtxStep(R, S, j, q)
\* cutting a clause with a set of unit clauses of both signs, at the top of a literal or (full) also below
SameCut(us, lit, full, q) == \E u \in us : u.p = lit.p /\ (Top(u, lit.l, lit.r, q) \/ (full /\ u.p = 1 /\ OneStep(u, lit.l, lit.r, q)))
OppCut(us, lit, full, q) == \E u \in us : u.p # lit.p /\ (Top(u, lit.l, lit.r, q) \/ (full /\ u.p = 1 /\ OneStep(u, lit.l, lit.r, q)))
=============================================================================
