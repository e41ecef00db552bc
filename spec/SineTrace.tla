------------------------------ MODULE SineTrace ------------------------------
(* Selections of the real filter judged by Sine.  record: P, runs of [fl, kind "gsine"|"threshold", thr, res sequence of formula numbers] *)
EXTENDS Sine, Json, TLC
Recs == ndJsonDeserialize("r.ndjson")
VARIABLE k
Ran(s) == {s[i] : i \in DOMAIN s}
Bad(r, x) == IF Len(x.res) # Cardinality(Ran(x.res)) THEN "duplicate"
   ELSE IF x.kind = "threshold" THEN (IF Ran(x.res) = (IF Len(r.P) <= x.thr THEN DOMAIN r.P ELSE {}) THEN "" ELSE "threshold")
   ELSE IF Allowed(r.P, x.fl, Ran(x.res)) THEN "" ELSE "selection"
Judge(r) == \A i \in DOMAIN r.runs : LET b == Bad(r, r.runs[i]) IN b = "" \/ PrintT(<<"BAD", r.id, i, b>>)
Init == k = 0
Next == k < Len(Recs) /\ k' = k + 1
Inv == k > 0 => Judge(Recs[k])
=============================================================================
