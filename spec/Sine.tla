-------------------------------- MODULE Sine --------------------------------
(* Goal-directed axiom selection.  A problem is a sequence of formulas [seed: 0 axiom, 1 conjecture, 2 hypothesis; cnt: symbol -> number of occurrences].
   A filter: terms (count term occurrences or formulas), hypos, ben (quarters), gen, depth, size, frac (quarters), nosym.
   Generality of a symbol: in how many formulas (or how often) it occurs.  A formula is triggered by its symbols of generality at most
   min(ben * least, generality of the symbol at rank gen).  Selection walks from the seeds level by level. *)
EXTENDS Naturals, Sequences, FiniteSets
Syms(f) == {s \in DOMAIN f.cnt : f.cnt[s] > 0}
RECURSIVE SumCnt(_,_,_)
SumCnt(P, s, i) == IF i > Len(P) THEN 0 ELSE P[i].cnt[s] + SumCnt(P, s, i + 1)
Generality(P, fl) == [s \in DOMAIN P[1].cnt |-> IF fl.terms = 1 THEN SumCnt(P, s, 1) ELSE Cardinality({i \in DOMAIN P : P[i].cnt[s] > 0})]
Min(a, b) == IF a < b THEN a ELSE b
\* the value at 0-based rank k when the symbols of S are sorted by G
RankVal(S, G, k) == CHOOSE v \in {G[s] : s \in S} : Cardinality({s \in S : G[s] < v}) <= k /\ Cardinality({s \in S : G[s] <= v}) > k
Triggers(f, G, fl) == LET S == Syms(f) IN IF S = {} THEN {} ELSE
  LET least == RankVal(S, G, 0)  k == Min(fl.gen, Cardinality(S) - 1)  lim == Min((least * fl.ben) \div 4, RankVal(S, G, k)) IN {s \in S : G[s] <= lim}
Seeds(P, fl) == {i \in DOMAIN P : P[i].seed = 1 \/ (P[i].seed = 2 /\ fl.hypos = 1)}
RECURSIVE Levels(_,_,_,_,_)
\* sequence of levels: acc the levels so far, seen their union
Levels(P, T, cur, seen, d) == IF d = 0 \/ cur = {} THEN <<cur>> ELSE
  LET ss == UNION {Syms(P[i]) : i \in cur}  new == {i \in DOMAIN P \ seen : T[i] \cap ss # {}} IN <<cur>> \o Levels(P, T, new, seen \cup new, d - 1)
\* is R an allowed result?
NoSym(P, T) == {i \in DOMAIN P : T[i] = {}}
Allowed(P, fl, R) ==
  LET G == Generality(P, fl)  T == [i \in DOMAIN P |-> Triggers(P[i], G, fl)]  S0 == Seeds(P, fl) IN
  IF S0 = {} THEN R = {} ELSE
  LET L == Levels(P, T, S0, S0, fl.depth)
      all == UNION {L[j] : j \in DOMAIN L}
      limit == Min(fl.size, (fl.frac * Len(P)) \div 4)
      extra == IF fl.nosym = 1 THEN NoSym(P, T) ELSE {}
      want == Min(Cardinality(all \ extra), limit + 1)
      upto(j) == UNION {L[m] : m \in 1..j} \ extra
      Q == R \ extra       \* the walk took Q: complete levels, then part of one
  IN extra \subseteq R /\ Cardinality(Q) = want /\ \E j \in DOMAIN L : upto(j - 1) \subseteq Q /\ Q \subseteq upto(j)
=============================================================================
