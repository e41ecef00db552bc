------------------------------- MODULE TermBank -------------------------------
(* A shared term bank.  The bank is a set of objects <<id, term>>; inserting a term stores all its subterms, one object each, reusing what is
   there; a collection keeps everything reachable from the roots (subterms, rewrite links) and may drop the rest; ids are never reused. *)
EXTENDS Subst
RECURSIVE SubT(_), VCnt(_), FCnt(_), SumV(_,_), SumF(_,_), Repl(_,_,_)
SubT(t) == IF IsVar(t) THEN {} ELSE {t} \cup UNION {SubT(t[i]) : i \in 2..Len(t)}
SumV(t, i) == IF i > Len(t) THEN 0 ELSE VCnt(t[i]) + SumV(t, i + 1)
SumF(t, i) == IF i > Len(t) THEN 0 ELSE FCnt(t[i]) + SumF(t, i + 1)
VCnt(t) == IF IsVar(t) THEN 1 ELSE SumV(t, 2)
FCnt(t) == IF IsVar(t) THEN 0 ELSE 1 + SumF(t, 2)
Repl(t, a, b) == IF t = a THEN b ELSE IF IsVar(t) THEN t ELSE [i \in DOMAIN t |-> IF i = 1 THEN t[1] ELSE Repl(t[i], a, b)]
OneToOne(P) == \A x \in P, y \in P : (x[1] = y[1]) <=> (x[2] = y[2])
\* rewrite links: pairs <<term, replacement>>
RECURSIVE Reach(_,_)
Reach(S, L) == LET N == S \cup UNION {SubT(t) : t \in S} \cup UNION {SubT(l[2]) : l \in {m \in L : m[1] \in S}} IN IF N = S THEN S ELSE Reach(N, L)
\* ------------------------------------------------ the bank as a state machine, checked by TLC over a small universe
CONSTANTS MaxId
T1 == {<<1>>, <<2>>, <<0, 1>>}
T2 == T1 \cup {<<3, s>> : s \in T1}
Univ == T2 \cup {<<3, s>> : s \in T2} \cup {<<4, s, t>> : s \in T1, t \in {<<1>>}}
VARIABLES bank, next, roots, links
vars == <<bank, next, roots, links>>
Terms(B) == {x[2] : x \in B}
Init == bank = {} /\ next = 1 /\ roots = {} /\ links = {}
Fresh(S, n) == CHOOSE f \in [S -> n..(n + Cardinality(S) - 1)] : \A x, y \in S : x # y => f[x] # f[y]
Insert(t) == LET new == SubT(t) \ Terms(bank) f == Fresh(new, next) IN
  /\ next + Cardinality(new) <= MaxId
  /\ bank' = bank \cup {<<f[s], s>> : s \in new} /\ next' = next + Cardinality(new) /\ roots' = roots \cup {t} /\ UNCHANGED links
Release(t) == t \in roots /\ roots' = roots \ {t} /\ UNCHANGED <<bank, next, links>>
Link(s, t) == s \in roots /\ t \in roots /\ ~IsVar(s) /\ s # t /\ links = {} /\ links' = {<<s, t>>} /\ UNCHANGED <<bank, next, roots>>
\* any subset of the unreachable objects that leaves the bank closed may go; the implementation drops all
Collect == LET live == Reach({t \in roots : ~IsVar(t)}, links) IN bank' = {x \in bank : x[2] \in live} /\ links' = {l \in links : l[1] \in live} /\ UNCHANGED <<next, roots>>
Next == (\E t \in Univ : Insert(t) \/ Release(t)) \/ (\E s \in Univ, t \in {<<1>>, <<3, <<1>>>>} : Link(s, t)) \/ Collect
Sharing == OneToOne(bank)
Closed == \A x \in bank : SubT(x[2]) \subseteq Terms(bank)
NoDangling == \A t \in roots : SubT(t) \subseteq Terms(bank)
LinksHold == \A l \in links : l[1] \in Terms(bank) => SubT(l[2]) \subseteq Terms(bank) \/ l[1] \notin Reach({t \in roots : ~IsVar(t)}, links)
StableIds == [][\A x \in bank, y \in bank' : x[1] = y[1] => x[2] = y[2]]_vars
=============================================================================
