------------------------------- MODULE Select -------------------------------
(* Clause selection.  A heuristic is a sequence of queues; queue i is used for w[i] selections in turn, then the next, cyclically.
   A queue orders the unprocessed clauses by priority, then weight, then age; the best is selected. *)
EXTENDS Integers, Sequences, FiniteSets
RECURSIVE SumW(_,_)
SumW(q, i) == IF i = 0 THEN 0 ELSE q[i].w + SumW(q, i - 1)
\* the queue of the n-th selection (n = 0, 1, ...)
Turn(q, n) == LET m == n % SumW(q, Len(q)) IN CHOOSE i \in 1..Len(q) : SumW(q, i - 1) <= m /\ m < SumW(q, i)
\* x, y: [ev |-> sequence of [p, h], age]
Better(x, y, i) == \/ x.ev[i].p < y.ev[i].p
                   \/ x.ev[i].p = y.ev[i].p /\ (x.ev[i].h < y.ev[i].h \/ (x.ev[i].h = y.ev[i].h /\ x.age < y.age))
Best(S, i) == CHOOSE x \in S : \A y \in S \ {x} : Better(x, y, i)
\* evaluation functions: clauses are sequences of literals [s: 1 positive, eq: 1 equation, f: function and predicate symbols, v: variable occurrences]
RECURSIVE SumLits(_,_,_)
LitWeight(l, q) == (q.fw * (l.f + l.eq) + q.vw * l.v) * (IF l.s = 1 THEN q.pm ELSE 10)
SumLits(c, q, i) == IF i > Len(c) THEN 0 ELSE LitWeight(c[i], q) + SumLits(c, q, i + 1)
\* n: evaluations of this queue so far; weights are given in tenths
Weight(c, q, n) == CASE q.fun = "Clauseweight" -> SumLits(c, q, 1) [] q.fun = "FIFOWeight" -> 10 * (n + 1) [] q.fun = "LIFOWeight" -> -10 * (n + 1)
Unit(c) == Len(c) = 1
Goal(c) == \A i \in DOMAIN c : c[i].s = 0
Positive(c) == \A i \in DOMAIN c : c[i].s = 1
Ground(c) == \A i \in DOMAIN c : c[i].v = 0
Pos(c) == Cardinality({i \in DOMAIN c : c[i].s = 1})
Prio(c, p) == LET pref(b) == IF b THEN 30 ELSE 40 IN
  CASE p = "ConstPrio" -> 40 [] p = "PreferGoals" -> pref(Goal(c)) [] p = "PreferNonGoals" -> pref(~Goal(c)) [] p = "PreferUnits" -> pref(Unit(c)) [] p = "PreferNonUnits" -> pref(~Unit(c))
    [] p = "PreferGround" -> pref(Ground(c)) [] p = "PreferNonGround" -> pref(~Ground(c)) [] p = "PreferGroundGoals" -> pref(Ground(c) /\ Goal(c)) [] p = "PreferUnitGroundGoals" -> pref(Ground(c) /\ Goal(c) /\ Unit(c))
    [] p = "PreferMixed" -> pref(~Goal(c) /\ ~Positive(c)) [] p = "PreferPositive" -> pref(Positive(c)) [] p = "PreferNegative" -> pref(Goal(c)) [] p = "PreferHorn" -> pref(Pos(c) <= 1) [] p = "PreferNonHorn" -> pref(Pos(c) > 1)
    [] p = "ByLiteralNumber" -> Len(c)
=============================================================================
