---------------------------- MODULE VerdictTrace ----------------------------
(* Judges what real runs reported.  Record: id, st (list of printed statuses), rc, conj, lost (the run's own report of
   removed formulas/dropped clauses, or an option that declares incompleteness), restr (restricted calculus), sat / axsat
   in {0, 1, 2 unknown}, nproc/maxproc (processed clauses and its limit, -1 none), ext (1: stopped from outside, no status needed). *)
EXTENDS VerdictDefs, Json
Known == Refuted \cup Saturated \cup NoAnswer \cup Service
Recs == ndJsonDeserialize("r.ndjson")
VARIABLE k
B(r, c, w) == IF c THEN TRUE ELSE PrintT(<<"BAD", r.id, w>>)
Judge(r) ==
  IF Len(r.st) # 1 THEN B(r, r.ext = 1 /\ Len(r.st) = 0, "number-of-statuses")
  ELSE LET s == r.st[1] IN
    /\ B(r, s \in Known, "unknown-status")
    /\ B(r, r.rc \in Codes(s), "exit-code")
    /\ B(r, s \in ConjOnly => r.conj = 1, "conjecture-status-without-conjecture")
    /\ B(r, s \in NoConjOnly => r.conj = 0, "clause-set-status-with-conjecture")
    /\ B(r, (r.lost = 1 \/ r.restr = 1) => s \notin Saturated, "definite-although-incomplete")
    /\ B(r, s \in Saturated => r.sat # 0, "satisfiable-claimed-for-unsatisfiable")
    /\ B(r, s \in Refuted => r.sat # 1, "refuted-claimed-for-satisfiable")
    /\ B(r, s = "ContradictoryAxioms" => r.axsat # 1, "contradictory-axioms-claimed-for-satisfiable-axioms")
    /\ B(r, s = "ResourceOut" => r.limited = 1, "resource-out-without-limit")
    /\ B(r, s = "Unknown" => r.service = 1, "unknown-without-service-mode")
    /\ B(r, r.maxproc >= 0 /\ r.nproc >= 0 => r.nproc <= r.maxproc, "processed-more-than-the-limit")
Init == k = 0
Next == k < Len(Recs) /\ k' = k + 1
Inv == k > 0 => Judge(Recs[k])
=============================================================================
