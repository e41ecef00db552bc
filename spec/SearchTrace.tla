---------------------------- MODULE SearchTrace ----------------------------
(* Conformance of recorded proof searches with the soundness part of GivenClause, for first-order
   clauses.  A record is one run: the input clauses, candidate interpretations, every clause the run
   derived and the verdict.  The spec computes which candidates are models of the input (in GivenClause
   terms: a subset of ModelsOf(input)); the run is a behaviour only if each derived clause holds in all
   of them (Sound) and no refutation is claimed while one exists (VerdictOk). *)
EXTENDS FOL, Json
Recs == ndJsonDeserialize("r.ndjson")
VARIABLE k
\* record: id, D (domain sizes), I (interpretations), inp (clauses), inf (closed formulas), der (clauses), refuted (0/1)
Models(r) == {m \in DOMAIN r.I : AllTrue(r.inp, r.I[m], r.D[m]) /\ \A i \in DOMAIN r.inf : FModel(r.inf[i], r.I[m], r.D[m])}
BadDer(r, M) == {i \in DOMAIN r.der : \E m \in M : ~ CTrue(r.der[i], r.I[m], r.D[m])}
Judge(r) == LET M == Models(r) B == BadDer(r, M) IN
  /\ IF r.need > 0 /\ Cardinality(M) < r.need THEN PrintT(<<"BAD", r.id, "oracle", 0>>) ELSE TRUE
  /\ IF r.refuted = 1 /\ M # {} THEN PrintT(<<"BAD", r.id, "refuted-but-model", CHOOSE m \in M : TRUE>>) ELSE TRUE
  /\ IF B # {} THEN PrintT(<<"BAD", r.id, "unsound-clause", CHOOSE i \in B : TRUE>>) ELSE TRUE
Init == k = 0
Next == k < Len(Recs) /\ k' = k + 1
Inv == k > 0 => Judge(Recs[k])
=============================================================================
