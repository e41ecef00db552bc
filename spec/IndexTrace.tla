------------------------------ MODULE IndexTrace ------------------------------
(* Histories of an index: insertions, deletions and retrievals, judged by TermIndex. *)
EXTENDS TermIndex, Json
Recs == ndJsonDeserialize("r.ndjson")
VARIABLE k
\* record: id, kind ("sub", "into", "from", "pdt"), vt, ft, cl: clauses, ops:
\*   [o 1 insert / 2 delete, c], [o 3 unifiable / 4 instances, t, res: entries], [o 5 demodulators, t, age, full, res: <<clause, side>>, inst: terms]
RECURSIVE Cur(_,_,_)
Cur(r, i, s) == IF i = 0 THEN {} ELSE LET p == Cur(r, i - 1, s) o == r.ops[i] IN IF o.o = 1 THEN p \cup {<<o.c, o.age>>} ELSE IF o.o = 2 THEN {x \in p : x[1] # o.c} ELSE p
Ran(q) == {q[i] : i \in DOMAIN q}
All(r, cur) == UNION {Entries(r.kind, r.cl[x[1]], x[1]) : x \in cur}
Want(r, cur, o) == {e \in All(r, cur) : IF o.o = 3 THEN Unifiable(o.t, e[3], r.vt, r.ft) ELSE Instance(o.t, e[3], r.vt, r.ft)}
PAll(r, cur, o, age) == UNION {{<<x[1], d>> : d \in {d \in Sides(r.cl[x[1]]) : Instance(Side(r.cl[x[1]], d), o.t, r.vt, r.ft)}} : x \in {y \in cur : y[2] > age}}
\* "" when right, otherwise what is wrong
OpBad(r, i) == LET o == r.ops[i] IN
  IF o.o \in {1, 2} THEN ""
  ELSE LET cur == Cur(r, i - 1, 0) got == Ran(o.res) IN
  IF o.o = 5 THEN
       IF ~(got \subseteq PAll(r, cur, o, -1)) THEN "returned-wrong-entry"
       ELSE IF \E j \in DOMAIN o.inst : o.inst[j] # o.t THEN "bindings-wrong"
       ELSE IF o.full = 1 /\ ~(PAll(r, cur, o, IF o.age = 0 THEN -1 ELSE o.age) \subseteq got) THEN "lost-entry" ELSE ""
  ELSE IF ~(got \subseteq All(r, cur)) THEN "returned-absent-entry"
       ELSE LET lost == Want(r, cur, o) \ got IN
            IF lost = {} THEN ""
            ELSE IF r.kind = "sub" /\ lost \cap UNION {ShallowEntries(r.cl[x[1]], x[1]) : x \in cur} = {} THEN "lost-deep-subterm" ELSE "lost-entry"
Judge(r) == LET b == {i \in DOMAIN r.ops : OpBad(r, i) \notin {"", "lost-deep-subterm"}}  d == {i \in DOMAIN r.ops : OpBad(r, i) = "lost-deep-subterm"} IN
   IF b # {} THEN LET i == CHOOSE x \in b : \A y \in b : x <= y IN PrintT(<<"BAD", r.id, i, OpBad(r, i)>>)
   ELSE IF d # {} THEN LET i == CHOOSE x \in d : TRUE IN PrintT(<<"BAD", r.id, i, OpBad(r, i)>>) ELSE TRUE
Init == k = 0
Next == k < Len(Recs) /\ k' = k + 1
Inv == k > 0 => Judge(Recs[k])
=============================================================================
