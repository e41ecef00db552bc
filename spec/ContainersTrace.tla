---------------------------- MODULE ContainersTrace ----------------------------
(* Recorded histories of the real containers replayed against Containers. *)
EXTENDS Containers, Json
Recs == ndJsonDeserialize("r.ndjson")
VARIABLE k
RECURSIVE Run(_,_,_)
Run(r, i, s) == IF i > Len(r.ops) THEN 0 ELSE LET n == Step(r.kind, s, r.ops[i].o, r.ops[i].a, r.ops[i].r) IN IF n.ok THEN Run(r, i + 1, n.s) ELSE i
Judge(r) == LET b == Run(r, 1, Start(r.kind)) IN b = 0 \/ PrintT(<<"BAD", r.id, b, r.ops[b].o>>)
Init == k = 0
Next == k < Len(Recs) /\ k' = k + 1
Inv == k > 0 => Judge(Recs[k])
=============================================================================
