----------------------------- MODULE ProofTrace -----------------------------
(* Printed derivations.  A derivation is a sequence of steps; a step names earlier steps as parents.
   record: inp: input formulas (closed, universally quantified), steps: sequence of
     [k: "in" (copy of input formula src) | "thm" | "cth" | "esa" | "def",  par: parents,  f: closed formula,  new: symbols not used in any earlier step,
      cl: 1 when printed as a clause,  ok: 1 when f can be evaluated (arities and number of variables within bounds)]
     fin: 1 when the derivation claims to be a refutation,  D, I: interpretations of all symbols. *)
EXTENDS FOL, Json
Recs == ndJsonDeserialize("r.ndjson")
VARIABLE k
\* equality up to renaming of bound variables; a, b: variable -> binding depth
RECURSIVE TEq(_,_,_,_), AEq(_,_,_,_,_)
TEq(s, t, a, b) == IF s[1] = 0 THEN t[1] = 0 /\ a[s[2]] = b[t[2]] ELSE s[1] = t[1] /\ Len(s) = Len(t) /\ \A i \in 2..Len(s) : TEq(s[i], t[i], a, b)
AEq(f, g, a, b, d) ==
  f[1] = g[1] /\
  CASE f[1] = 1 -> TEq(f[2], g[2], a, b)
    [] f[1] = 2 -> \/ TEq(f[2], g[2], a, b) /\ TEq(f[3], g[3], a, b)
                   \/ TEq(f[2], g[3], a, b) /\ TEq(f[3], g[2], a, b)
    [] f[1] = 3 -> AEq(f[2], g[2], a, b, d)
    [] f[1] \in {4, 5, 6, 7} -> AEq(f[2], g[2], a, b, d) /\ AEq(f[3], g[3], a, b, d)
    [] f[1] \in {8, 9} -> AEq(f[3], g[3], [a EXCEPT ![f[2]] = d], [b EXCEPT ![g[2]] = d], d + 1)
    [] OTHER -> TRUE
Dep0 == [i \in 1..40 |-> 0]
\* flattening of conjunctions and disjunctions is not visible in the printed text: compare after associating to the right
\* trivial equations may be printed as truth values
Neg(f) == CASE f[1] = 10 -> <<11>> [] f[1] = 11 -> <<10>> [] OTHER -> <<3, f>>
RECURSIVE Fl(_,_), Rt(_,_), Nm(_)
Fl(f, o) == IF f[1] = o THEN Fl(f[2], o) \o Fl(f[3], o) ELSE <<Nm(f)>>
Rt(q, o) == IF Len(q) = 1 THEN q[1] ELSE <<o, q[1], Rt(Tail(q), o)>>
Nm(f) == CASE f[1] \in {4, 5} -> Rt(Fl(f, f[1]), f[1])
           [] f[1] = 3 -> Neg(Nm(f[2]))
           [] f[1] = 2 -> IF f[2] = f[3] THEN <<10>> ELSE f
           [] f[1] \in {6, 7} -> <<f[1], Nm(f[2]), Nm(f[3])>>
           [] f[1] \in {8, 9} -> <<f[1], f[2], Nm(f[3])>>
           [] OTHER -> f
Alpha(f, g) == AEq(Nm(f), Nm(g), Dep0, Dep0, 1)
\* clauses: literals in any order
RECURSIVE Body(_), Perm(_,_,_)
Body(f) == IF f[1] = 8 THEN Body(f[3]) ELSE f
Lits(f) == Fl(Body(f), 5)
RECURSIVE Tm(_,_,_), Tms(_,_,_,_)
\* extend the variable correspondence m (set of pairs) so that s becomes t; {} when impossible, otherwise {m'}
Tm(s, t, m) == IF s[1] = 0 THEN (IF t[1] # 0 THEN {} ELSE IF \E p \in m : (p[1] = s[2]) # (p[2] = t[2]) THEN {} ELSE {m \cup {<<s[2], t[2]>>}})
               ELSE IF t[1] # s[1] \/ Len(s) # Len(t) THEN {} ELSE Tms(s, t, 2, m)
Tms(s, t, i, m) == IF i > Len(s) THEN {m} ELSE UNION {Tms(s, t, i + 1, x) : x \in Tm(s[i], t[i], m)}
RECURSIVE Lm(_,_,_)
Lm(a, b, m) == IF a[1] # b[1] THEN {} ELSE
  CASE a[1] = 3 -> Lm(a[2], b[2], m)
    [] a[1] = 1 -> Tm(a[2], b[2], m)
    [] a[1] = 2 -> UNION {Tm(a[3], b[3], x) : x \in Tm(a[2], b[2], m)} \cup UNION {Tm(a[3], b[2], x) : x \in Tm(a[2], b[3], m)}
    [] OTHER -> {m}
Perm(p, q, m) == IF p = <<>> THEN q = <<>>
                 ELSE \E j \in DOMAIN q : \E x \in Lm(p[1], q[j], m) : Perm(Tail(p), SubSeq(q, 1, j - 1) \o SubSeq(q, j + 1, Len(q)), x)
Variant(f, g) == LET p == Lits(f) q == Lits(g) IN Len(p) = Len(q) /\ Perm(p, q, {})
Copy(s, r) == s.src \in DOMAIN r.inp /\ (IF s.cl = 1 THEN Variant(s.f, r.inp[s.src]) ELSE Alpha(s.f, r.inp[s.src]))
\* definitions can be ordered such that each has a symbol of its own: not in the input, not in the definitions before it
SymSet(q) == {q[i] : i \in DOMAIN q}
RECURSIVE Layered(_,_)
Layered(S, X) == IF X = {} THEN TRUE ELSE
  LET L == {i \in X : \E y \in SymSet(S[i].ds) : \A j \in X \ {i} : y \notin SymSet(S[j].ds)} IN L # {} /\ Layered(S, X \ L)
\* a definition can be satisfied by choosing the table of one of its new symbols, whatever the other symbols mean
RECURSIVE Pow(_,_)
Pow(d, n) == IF n = 0 THEN 1 ELSE d * Pow(d, n - 1)
Tables(r, y, D) == LET w == Pow(D, r.ar[y][2]) IN IF r.ar[y][1] = 1 THEN [1..w -> 0..1] ELSE [1..w -> 0..(D - 1)]
TooMany(r, y, D) == Pow(D, r.ar[y][2]) > 4
Conservative(r, s, m) == \E y \in SymSet(s.ds) : TooMany(r, y, r.D[m]) \/ \E t \in Tables(r, y, r.D[m]) : FModel(s.f, [r.I[m] EXCEPT ![y] = t], r.D[m])
\* structure
Shape(r) == LET S == r.steps IN
  IF \E i \in DOMAIN S : S[i].k = "in" /\ ~ Copy(S[i], r) THEN <<"leaf-not-input", CHOOSE i \in DOMAIN S : S[i].k = "in" /\ ~ Copy(S[i], r)>>
  ELSE IF \E i \in DOMAIN S : \E j \in DOMAIN S[i].par : S[i].par[j] >= i \/ S[i].par[j] < 1 THEN <<"parent-not-before", CHOOSE i \in DOMAIN S : \E j \in DOMAIN S[i].par : S[i].par[j] >= i \/ S[i].par[j] < 1>>
  ELSE IF \E i \in DOMAIN S : S[i].k \in {"thm", "cth", "esa"} /\ S[i].par = <<>> THEN <<"no-parents", CHOOSE i \in DOMAIN S : S[i].k \in {"thm", "cth", "esa"} /\ S[i].par = <<>>>>
  ELSE IF ~ Layered(S, {i \in DOMAIN S : S[i].k = "def"}) THEN <<"definitions-not-layered", CHOOSE i \in DOMAIN S : S[i].k = "def">>
  ELSE IF \E i \in DOMAIN S : S[i].k \in {"thm", "cth"} /\ S[i].new = 1 THEN <<"new-symbol-in-consequence", CHOOSE i \in DOMAIN S : S[i].k \in {"thm", "cth"} /\ S[i].new = 1>>
  ELSE IF r.fin = 1 /\ ~ (Len(S) > 0 /\ S[Len(S)].f = <<11>>) /\ ~ (\E i \in DOMAIN S : S[i].f = <<11>> /\ r.full = 1) THEN <<"does-not-end-in-false", Len(S)>>
  ELSE <<"ok", 0>>
\* meaning
Val(r, m) == [i \in DOMAIN r.steps |-> IF r.steps[i].ok = 1 THEN FModel(r.steps[i].f, r.I[m], r.D[m]) ELSE TRUE]
BadStep(s, i, v) == s.ok = 1 /\ (\A j \in DOMAIN s.par : s.pok[j] = 1) /\
  CASE s.k = "thm" -> (\A j \in DOMAIN s.par : v[s.par[j]]) /\ ~v[i]
    [] s.k = "cth" -> v[i] = v[s.par[1]]
    [] s.k = "esa" -> v[i] /\ \E j \in DOMAIN s.par : ~v[s.par[j]]
    [] OTHER -> FALSE
Judge(r) == LET x == Shape(r) IN
  /\ IF x[1] # "ok" THEN PrintT(<<"BAD", r.id, x[1], x[2]>>) ELSE TRUE
  /\ x[1] \in {"parent-not-before", "no-parents"} \/
     LET B == UNION {LET v == Val(r, m) IN {i \in DOMAIN r.steps : BadStep(r.steps[i], i, v)} : m \in DOMAIN r.I} IN
     LET Q == {i \in DOMAIN r.steps : r.steps[i].k = "def" /\ r.steps[i].ok = 1 /\ \E m \in DOMAIN r.I : ~ Conservative(r, r.steps[i], m)} IN
     IF Q # {} THEN PrintT(<<"BAD", r.id, "not-a-definition", CHOOSE i \in Q : TRUE>>) ELSE
     IF B # {} THEN PrintT(<<"BAD", r.id, "step-does-not-follow", CHOOSE i \in B : \A j \in B : i <= j>>) ELSE TRUE
Init == k = 0
Next == k < Len(Recs) /\ k' = k + 1
Inv == k > 0 => Judge(Recs[k])
=============================================================================
