------------------------------ MODULE TermIndex ------------------------------
(* Term indexes as the prover uses them: an index is a set of clauses; each clause contributes entries <<clause, position, term>>.
   A retrieval must return every entry whose term is unifiable with (an instance of) the query; it may return more, but only present entries.
   Literals: [p sign, mx maximal, o oriented, sel selected, l, r]. Positions count symbols with weight 2 and variables with weight 1 in prefix order. *)
EXTENDS Subst
RECURSIVE Wt(_), WtS(_,_), PosSub(_,_), PosArgs(_,_,_), LitPos(_,_)
Wt(t) == IF IsVar(t) THEN 1 ELSE 2 + WtS(t, 2)
WtS(t, i) == IF i > Len(t) THEN 0 ELSE Wt(t[i]) + WtS(t, i + 1)
\* all non-variable subterms of t at their positions, t itself at p
PosSub(t, p) == IF IsVar(t) THEN {} ELSE {<<p, t>>} \cup PosArgs(t, 2, p + 2)
PosArgs(t, i, p) == IF i > Len(t) THEN {} ELSE PosSub(t[i], p) \cup PosArgs(t, i + 1, p + Wt(t[i]))
LitPos(c, i) == IF i = 1 THEN 0 ELSE LitPos(c, i - 1) + Wt(c[i - 1].l) + Wt(c[i - 1].r)
RECURSIVE Subs(_)
Subs(t) == IF IsVar(t) THEN {} ELSE {t} \cup UNION {Subs(t[i]) : i \in 2..Len(t)}
Shallow(t) == IF IsVar(t) THEN {} ELSE {t} \cup {t[i] : i \in {j \in 2..Len(t) : ~IsVar(t[j])}}
\* backward rewriting: every non-variable subterm
SubEntries(c, n) == {<<n, 0, u>> : u \in UNION {Subs(c[i].l) \cup Subs(c[i].r) : i \in DOMAIN c}}
ShallowEntries(c, n) == {<<n, 0, u>> : u \in UNION {Shallow(c[i].l) \cup Shallow(c[i].r) : i \in DOMAIN c}}
\* paramodulation into: non-variable subterms of the (potentially) maximal sides of maximal literals
IntoEntries(c, n) == {<<n, x[1], x[2]>> : x \in UNION {PosSub(c[i].l, LitPos(c, i)) \cup (IF c[i].o = 1 THEN {} ELSE PosSub(c[i].r, LitPos(c, i) + Wt(c[i].l))) : i \in {j \in DOMAIN c : c[j].mx = 1}}}
\* paramodulation from: (potentially) maximal sides of maximal positive literals in clauses where they are not selected
FromEntries(c, n) == UNION {{<<n, LitPos(c, i), c[i].l>>} \cup (IF c[i].o = 1 THEN {} ELSE {<<n, LitPos(c, i) + Wt(c[i].l), c[i].r>>}) : i \in {j \in DOMAIN c : c[j].mx = 1 /\ c[j].p = 1 /\ c[j].sel = 0}}
Entries(kind, c, n) == IF kind = "sub" THEN SubEntries(c, n) ELSE IF kind = "into" THEN IntoEntries(c, n) ELSE FromEntries(c, n)
Unifiable(s, t, vt, ft) == Unify(<< <<s, t>> >>, Id(Len(vt)), vt, ft) # <<>>
Instance(pat, t, vt, ft) == Match(<< <<pat, t>> >>, NoBind(Len(vt)), vt, ft) # <<>>
\* demodulator index: sides of unit equations
Sides(c) == IF c[1].o = 1 THEN {1} ELSE {1, 2}
Side(c, k) == IF k = 1 THEN c[1].l ELSE c[1].r
=============================================================================
