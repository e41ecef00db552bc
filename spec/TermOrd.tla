------------------------------- MODULE TermOrd -------------------------------
(* Reduction orderings on first-order terms, by definition.  A term is <<0, v>> (variable v) or <<f, t1, .., tn>> (symbol f >= 1).
   A configuration C is a record: kind ("KBO" or "LPO"), w (weights), vw (variable weight), p (precedence matrix with entries of CompareResult).
   CompareResult: 1 uncomparable, 2 equal, 3 greater, 4 lesser. *)
EXTENDS Integers, Sequences, FiniteSets, TLC
IsVar(t) == t[1] = 0
Ar(t) == Len(t) - 1
RECURSIVE Occ(_,_), OccS(_,_,_), W(_,_), WS(_,_,_), VarsOf(_), In(_,_)
Occ(v, t) == IF IsVar(t) THEN IF t[2] = v THEN 1 ELSE 0 ELSE OccS(v, t, 2)
OccS(v, t, i) == IF i > Len(t) THEN 0 ELSE Occ(v, t[i]) + OccS(v, t, i + 1)
W(t, C) == IF IsVar(t) THEN C.vw ELSE C.w[t[1]] + WS(t, 2, C)
WS(t, i, C) == IF i > Len(t) THEN 0 ELSE W(t[i], C) + WS(t, i + 1, C)
VarsOf(t) == IF IsVar(t) THEN {t[2]} ELSE UNION {VarsOf(t[i]) : i \in 2..Len(t)}
In(v, t) == IF IsVar(t) THEN t[2] = v ELSE \E i \in 2..Len(t) : In(v, t[i])
Prec(f, g, C) == C.p[f][g]
RECURSIVE Kbo(_,_,_), KLex(_,_,_,_)
VarCond(s, t) == \A v \in VarsOf(t) : Occ(v, s) >= Occ(v, t)
\* s > v for every proper superterm of v: with a positive variable weight this is the usual condition (greater weight, or f^n(v))
Kbo(s, t, C) ==
  IF IsVar(s) THEN FALSE
  ELSE IF IsVar(t) THEN In(t[2], s)
  ELSE /\ VarCond(s, t)
       /\ LET ws == W(s, C) wt == W(t, C) IN
          \/ ws > wt
          \/ ws = wt /\ (Prec(s[1], t[1], C) = 3 \/ (s[1] = t[1] /\ KLex(s, t, 2, C)))
KLex(s, t, i, C) == IF i > Len(s) THEN FALSE ELSE IF s[i] = t[i] THEN KLex(s, t, i + 1, C) ELSE Kbo(s[i], t[i], C)
RECURSIVE Lpo(_,_,_), LLex(_,_,_,_)
Lpo(s, t, C) ==
  IF IsVar(s) THEN FALSE
  ELSE IF IsVar(t) THEN In(t[2], s)
  ELSE \/ \E i \in 2..Len(s) : s[i] = t \/ Lpo(s[i], t, C)
       \/ LET c == Prec(s[1], t[1], C) IN
          \/ c = 3 /\ \A j \in 2..Len(t) : Lpo(s, t[j], C)
          \/ s[1] = t[1] /\ LLex(s, t, 2, C) /\ \A j \in 2..Len(t) : Lpo(s, t[j], C)
LLex(s, t, i, C) == IF i > Len(s) THEN FALSE ELSE IF s[i] = t[i] THEN LLex(s, t, i + 1, C) ELSE Lpo(s[i], t[i], C)
Gt(s, t, C) == IF C.kind = "KBO" THEN Kbo(s, t, C) ELSE Lpo(s, t, C)
Cmp(s, t, C) == IF s = t THEN 2 ELSE IF Gt(s, t, C) THEN 3 ELSE IF Gt(t, s, C) THEN 4 ELSE 1
\* a generated configuration is admissible: strict partial precedence; KBO: constants at least the variable weight and positive,
\* a unary function symbol of weight 0 is maximal among the function symbols (ar[f]: arity, isp[f] = 1 for predicates)
PrecOk(C) == LET n == Len(C.p) IN
  /\ \A f \in 1..n : C.p[f][f] = 2
  /\ \A f, g \in 1..n : f # g => (C.p[f][g] \in {1, 3, 4} /\ (C.p[f][g] = 3 <=> C.p[g][f] = 4))
  /\ \A f, g, h \in 1..n : C.p[f][g] = 3 /\ C.p[g][h] = 3 => C.p[f][h] = 3
PrecTotal(C) == \A f, g \in 1..Len(C.p) : f # g => C.p[f][g] \in {3, 4}
WeightOk(C, ar, isp) == LET n == Len(C.w) IN
  /\ C.vw > 0
  /\ \A f \in 1..n : C.w[f] >= 0 /\ (ar[f] = 0 => C.w[f] >= C.vw /\ (f > 1 => C.w[f] > 0))
  /\ \A f \in 1..n : ar[f] = 1 /\ C.w[f] = 0 /\ isp[f] = 0 => \A g \in 1..n : isp[g] = 0 /\ g # f => C.p[f][g] = 3
\* literals <<sign, s, t>>
MGe2(a, b, c, d, C) == LET eq1 == a = c /\ b = d  eq2 == a = d /\ b = c IN eq1 \/ eq2
GE(s, t, C) == s = t \/ Gt(s, t, C)
\* {a,b} >> {c,d}, not equal as multisets
MGt(a, b, c, d, C) ==
  /\ ~ MGe2(a, b, c, d, C)
  /\ LET \* remove common elements, every remaining right element dominated by a remaining left element
         L == IF a = c THEN <<<<b>>, <<d>>>> ELSE IF a = d THEN <<<<b>>, <<c>>>> ELSE IF b = c THEN <<<<a>>, <<d>>>> ELSE IF b = d THEN <<<<a>>, <<c>>>> ELSE <<<<a, b>>, <<c, d>>>>
     IN \A j \in DOMAIN L[2] : \E i \in DOMAIN L[1] : Gt(L[1][i], L[2][j], C)
\* a positive literal is {{s},{t}}, a negative one {{s,t}}; >>> is the multiset extension of >>
Single(x, c, d, C) == \* {x} >> {c,d}
  IF x = c \/ x = d THEN FALSE ELSE Gt(x, c, C) /\ Gt(x, d, C)
PairGtSingle(a, b, x, C) == \* {a,b} >> {x}
  \/ a = x \/ b = x \/ Gt(a, x, C) \/ Gt(b, x, C)
LitGt(l, m, C) ==
  IF l[1] = m[1] THEN MGt(l[2], l[3], m[2], m[3], C)
  ELSE IF l[1] = 1 THEN Single(l[2], m[2], m[3], C) \/ Single(l[3], m[2], m[3], C)
  ELSE PairGtSingle(l[2], l[3], m[2], C) /\ PairGtSingle(l[2], l[3], m[3], C)
LitEq(l, m) == l[1] = m[1] /\ ((l[2] = m[2] /\ l[3] = m[3]) \/ (l[2] = m[3] /\ l[3] = m[2]))
LitCmp(l, m, C) == IF LitEq(l, m) THEN 2 ELSE IF LitGt(l, m, C) THEN 3 ELSE IF LitGt(m, l, C) THEN 4 ELSE 1
=============================================================================
