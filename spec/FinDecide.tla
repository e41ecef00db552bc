----------------------------- MODULE FinDecide -----------------------------
(* Exact decision for problems all of whose models can be cut down to at most r.maxD elements
   (function-free problems: number of constants; problems with a domain-closure axiom: its length).
   The spec enumerates the interpretations of the function symbols over 0..D-1 and decides the rest by
   DPLL over the ground atoms.  A record is BAD if the prover's claim contradicts the decision. *)
EXTENDS FOL, Json, FiniteSetsExt
Recs == ndJsonDeserialize("r.ndjson")
VARIABLE k
\* record: id, inp, maxD, far (function arities by symbol, -1 for predicates), sat / unsat claims 0/1
NS(r) == Len(r.far)
\* enumerate tables symbol by symbol instead of as one product
RECURSIVE Enum(_,_,_,_)
\* constants are symbols 1, 2, ..: up to isomorphism the s-th one is at most s - 1
TabSet(r, D, s) == IF r.far[s] < 0 THEN {<<0>>} ELSE IF r.far[s] = 0 THEN {<<v>> : v \in 0..(IF s < D THEN s - 1 ELSE D - 1)} ELSE
   [1..(IF r.far[s] = 0 THEN 1 ELSE IF r.far[s] = 1 THEN D ELSE D*D) -> 0..(D-1)]
\* ground clause under env: set of propositional literals, or {"T"} when already true; literal = <<sign, sym, value of args>>
GLit(l, e, T, D) ==
  IF Len(l) = 3 THEN (IF (TVal(l[2], e, T, D) = TVal(l[3], e, T, D)) = (l[1] = 1) THEN {<<2, 0, 0>>} ELSE {})
  ELSE LET t == l[2] IN {<<l[1], t[1], IF Len(t) = 1 THEN 0 ELSE IF Len(t) = 2 THEN TVal(t[2], e, T, D) ELSE TVal(t[2], e, T, D) * D + TVal(t[3], e, T, D)>>}
GClause(c, e, T, D) == UNION {GLit(c[2][i], e, T, D) : i \in DOMAIN c[2]}
Ground(r, T, D) == {g \in UNION {{GClause(r.inp[i], e, T, D) : e \in Envs[D][r.inp[i][1]]} : i \in DOMAIN r.inp} : <<2, 0, 0>> \notin g}
Flip(l) == <<1 - l[1], l[2], l[3]>>
Assign(S, l) == {g \ {Flip(l)} : g \in {h \in S : l \notin h}}
RECURSIVE Dpll(_)
Dpll(S) == IF S = {} THEN TRUE
           ELSE IF {} \in S THEN FALSE
           ELSE IF \E g \in S : Cardinality(g) = 1
                THEN Dpll(Assign(S, CHOOSE l \in (CHOOSE g \in S : Cardinality(g) = 1) : TRUE))
                ELSE LET l == CHOOSE x \in UNION S : TRUE IN Dpll(Assign(S, l)) \/ Dpll(Assign(S, Flip(l)))
Enum(r, D, s, T) == IF s > NS(r) THEN Dpll(Ground(r, T, D))
                    ELSE \E t \in TabSet(r, D, s) : Enum(r, D, s + 1, Append(T, t))
Sat(r) == \E D \in 1..r.maxD : Enum(r, D, 1, <<>>)
Judge(r) == LET s == Sat(r) IN
  /\ IF r.sat = 1 /\ ~s THEN PrintT(<<"BAD", r.id, "claimed-satisfiable">>) ELSE TRUE
  /\ IF r.unsat = 1 /\ s THEN PrintT(<<"BAD", r.id, "claimed-unsatisfiable">>) ELSE TRUE
Init == k = 0
Next == k < Len(Recs) /\ k' = k + 1
Inv == k > 0 => Judge(Recs[k])
=============================================================================
