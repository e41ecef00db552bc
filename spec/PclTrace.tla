------------------------------ MODULE PclTrace ------------------------------
(* Runs of the real extraction tool judged by Pcl.  record: L listing, runs of [how "normal"|"fast"|"all", out listing, frame "" or the framing word, again: 1 if a second extraction from the output reproduces it] *)
EXTENDS Pcl, Json, TLC
Recs == ndJsonDeserialize("r.ndjson")
VARIABLE k
Bad(r, x) == LET w == Why(r.L, x.how, x.out) IN IF w # "" THEN w ELSE IF x.frame # "" /\ x.frame # Frame(r.L, x.how) THEN "framing " \o x.frame ELSE IF x.again = 0 THEN "output not reproduced from itself" ELSE ""
Judge(r) == \A i \in DOMAIN r.runs : LET b == Bad(r, r.runs[i]) IN b = "" \/ PrintT(<<"BAD", r.id, i, b>>)
Init == k = 0
Next == k < Len(Recs) /\ k' = k + 1
Inv == k > 0 => Judge(Recs[k])
=============================================================================
