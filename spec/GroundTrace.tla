----------------------------- MODULE GroundTrace -----------------------------
(* Outputs of the real grounder judged by Ground.  record: P clauses, K number of constants, runs of
   [opt, new predicates, out: clauses, dim: DIMACS clauses (sequences of non-zero integers), dvars, dcls: its header] *)
EXTENDS Ground, Json, TLC
Recs == ndJsonDeserialize("r.ndjson")
VARIABLE k
Abs(x) == IF x < 0 THEN -x ELSE x
Lit(l) == <<l.s, l.p, l.a>>
\* an empty clause is written as two complementary units, so a set with an empty clause is only compared as unsatisfiable
RECURSIVE SatD(_)
SatD(S) == Sat({{<<IF x < 0 THEN 0 ELSE 1, Abs(x), <<>>>> : x \in Ran(c)} : c \in S})
Dimacs(x) ==
  LET D == x.dim  O == x.out IN
  IF Len(D) # x.dcls THEN "clause count in the header"
  ELSE IF \E c \in Ran(D) : \E v \in Ran(c) : Abs(v) > x.dvars THEN "variable above the header's"
  ELSE IF \E c \in Ran(O) : c = <<>> THEN (IF SatD(Ran(D)) THEN "empty clause lost" ELSE "")
  ELSE IF Len(D) # Len(O) THEN "clause count"
  ELSE IF \E i \in DOMAIN D : Len(D[i]) # Len(O[i]) THEN "clause length"
  ELSE LET B == {<<D[i][j], O[i][j]>> : <<i, j>> \in {<<i, j>> \in (DOMAIN D) \X (1..20) : j <= Len(D[i])}} IN
       IF (\A b \in B : (b[1] > 0) = (b[2].s = 1)) /\ (\A b \in B, c \in B : (Abs(b[1]) = Abs(c[1])) = (b[2].p = c[2].p /\ b[2].a = c[2].a)) THEN "" ELSE "numbering of the atoms"
Judge(r) == LET G == Grounding(r.P, 1..r.K) IN
  \A i \in DOMAIN r.runs : LET x == r.runs[i]  w == Why(G, {{Lit(l) : l \in Ran(c)} : c \in Ran(x.out)}, Ran(x.new), x.opt)  d == Dimacs(x) IN
    (w = "" \/ PrintT(<<"BAD", r.id, i, w>>)) /\ (d = "" \/ PrintT(<<"BAD", r.id, i, d>>))
Init == k = 0
Next == k < Len(Recs) /\ k' = k + 1
Inv == k > 0 => Judge(Recs[k])
=============================================================================
