-------------------------------- MODULE Rewrite --------------------------------
(* Rewriting with a set of equations under a reduction ordering.  Terms and configurations as in TermOrd.
   An equation is <<l, r>>; it rewrites an instance of a side to the other side when the instance is greater.  Variables that occur only in the other side
   block the step, or (strong, C.min # 0) are replaced by the smallest constant.  Level 1: only equations that are greater from one side as they stand. *)
EXTENDS TermOrd
Range(q) == {q[i] : i \in DOMAIN q}
NoB == [v \in {} |-> 0]
RECURSIVE Mt(_,_,_), MtArgs(_,_,_,_)
Mt(p, t, m) == IF IsVar(p) THEN IF p[2] \in DOMAIN m THEN IF m[p[2]] = t THEN <<m>> ELSE <<>> ELSE <<[v \in DOMAIN m \cup {p[2]} |-> IF v = p[2] THEN t ELSE m[v]]>>
               ELSE IF IsVar(t) \/ p[1] # t[1] THEN <<>> ELSE MtArgs(p, t, 2, m)
MtArgs(p, t, i, m) == IF i > Len(p) THEN <<m>> ELSE LET x == Mt(p[i], t[i], m) IN IF x = <<>> THEN <<>> ELSE MtArgs(p, t, i + 1, x[1])
RECURSIVE Ap(_,_,_)
Ap(m, t, c) == IF IsVar(t) THEN IF t[2] \in DOMAIN m THEN m[t[2]] ELSE <<c>> ELSE [i \in DOMAIN t |-> IF i = 1 THEN t[1] ELSE Ap(m, t[i], c)]
\* an equation that neither side dominates never rewrites its own variants
Renaming(m) == \A v \in DOMAIN m : IsVar(m[v]) /\ \A w \in DOMAIN m : m[v] = m[w] => v = w
\* reducts of t at the top with l -> r
Top1(l, r, t, C, rule) ==   \* variables stand for individuals: they do not match atoms (C.pr: predicate symbols)
  LET x == Mt(l, t, NoB) IN
  IF x = <<>> \/ (IsVar(l) /\ t[1] \in Range(C.pr)) THEN {} ELSE IF ~ (VarsOf(r) \subseteq DOMAIN x[1]) /\ C.min = 0 THEN {}
  ELSE LET u == Ap(x[1], r, C.min) IN IF rule \/ (~Renaming(x[1]) /\ Gt(t, u, C)) THEN {u} ELSE {}
\* D: sequence of <<l, r, kind>>, kind 1: l > r, 0: neither side greater
TopReds(t, D, C, lvl) == IF IsVar(t) THEN {} ELSE UNION {Top1(d[1], d[2], t, C, d[3] = 1) \cup (IF d[3] = 1 THEN {} ELSE Top1(d[2], d[1], t, C, FALSE)) : d \in {D[i] : i \in {j \in DOMAIN D : D[j][3] = 1 \/ lvl = 2}}}
RECURSIVE Reds(_,_,_,_), Reducible(_,_,_,_)
Reds(t, D, C, lvl) == IF IsVar(t) THEN {} ELSE TopReds(t, D, C, lvl) \cup UNION {{[t EXCEPT ![i] = u] : u \in Reds(t[i], D, C, lvl)} : i \in 2..Len(t)}
Reducible(t, D, C, lvl) == ~IsVar(t) /\ (TopReds(t, D, C, lvl) # {} \/ \E i \in 2..Len(t) : Reducible(t[i], D, C, lvl))
\* all descendants of t, or more than cap of them
RECURSIVE Desc(_,_,_,_,_)
Desc(seen, new, D, C, cap) == IF new = {} \/ Cardinality(seen) > cap THEN seen ELSE LET n == UNION {Reds(t, D, C, 2) : t \in new} \ seen IN Desc(seen \cup n, n, D, C, cap)
\* 1: u is a descendant of t; 0: it is not; 2: too many descendants to say
Reaches(t, u, D, C, cap) == IF t = u THEN 1 ELSE LET S == Desc({t}, {t}, D, C, cap) IN IF u \in S THEN 1 ELSE IF Cardinality(S) > cap THEN 2 ELSE 0
=============================================================================
