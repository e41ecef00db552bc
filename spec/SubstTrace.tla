------------------------------ MODULE SubstTrace ------------------------------
(* Histories of a substitution object: matching, unification and backtracking requests with the bindings after each, judged by Subst. *)
EXTENDS Subst, Json
Recs == ndJsonDeserialize("r.ndjson")
VARIABLE k
\* record: id, vt, ft, mode (1 match, 2 unify), ops: sequence of [o, s, t, ok, st, b]
\*   o = 1: match / mgu of s and t;  o = 2: backtrack to the state after request b (0: initial);  o = 3: unify equations s = <<l,r>>, t = <<l,r>>
Start(r) == IF r.mode = 1 THEN NoBind(Len(r.vt)) ELSE Id(Len(r.vt))
St(r, i) == IF i = 0 THEN Start(r) ELSE r.ops[i].st
OpOk(r, i) == LET p == St(r, i - 1)  o == r.ops[i] IN
  IF o.o = 2 THEN o.st = St(r, o.b)
  ELSE IF r.mode = 1 THEN LET m == Match(<< <<o.s, o.t>> >>, p, r.vt, r.ft) IN IF m = <<>> THEN o.ok = 0 /\ o.st = p ELSE o.ok = 1 /\ o.st = m[1]
  ELSE LET E == IF o.o = 1 THEN {<< <<o.s, o.t>> >>} ELSE {<< <<o.s[1], o.t[1]>>, <<o.s[2], o.t[2]>> >>, << <<o.s[1], o.t[2]>>, <<o.s[2], o.t[1]>> >>} IN
       IF \A e \in E : Unify(e, p, r.vt, r.ft) = <<>> THEN o.ok = 0 /\ o.st = p ELSE o.ok = 1 /\ \E e \in E : IsMgu(e, p, o.st, r.vt, r.ft)
Judge(r) == LET b == {i \in DOMAIN r.ops : ~OpOk(r, i)} IN IF b = {} THEN TRUE ELSE LET i == CHOOSE x \in b : \A y \in b : x <= y IN PrintT(<<"BAD", r.id, i>>)
Init == k = 0
Next == k < Len(Recs) /\ k' = k + 1
Inv == k > 0 => Judge(Recs[k])
=============================================================================
