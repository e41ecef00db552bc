---------------------------- MODULE CsscpaTrace -----------------------------
(* Sessions with the real filter judged by Csscpa.
   record: vt, ft, cl clauses, ops: [o "a"|"c"|"s", c, wd, ad, out, by (subsumer), rem (removed clauses), cnt counters (<<>> when not reported)], fin: printed clauses at the end *)
EXTENDS Csscpa, Json
Recs == ndJsonDeserialize("r.ndjson")
VARIABLE k
Ran(s) == {s[i] : i \in DOMAIN s}
Counters(H, cl) == <<Cardinality(H), HL(H, cl), HW(H, cl)>>
RECURSIVE Walk(_,_,_)
Walk(r, i, H) ==
  IF i > Len(r.ops) THEN
     LET var(h, f) == Len(r.cl[h]) = Len(f) /\ Sub(r.cl[h], f, r) /\ Sub(f, r.cl[h], r) IN
     IF Len(r.fin) = Cardinality(H) /\ \A h \in H : \E j \in DOMAIN r.fin : var(h, r.fin[j]) THEN "" ELSE "final-set"
  ELSE LET o == r.ops[i] IN
    IF o.o = "s" THEN (IF o.cnt # Counters(H, r.cl) THEN "counters" ELSE Walk(r, i + 1, H))
    ELSE IF o.out \notin Outcomes(H, o.c, o.o = "a", o.wd, o.ad, r.cl, r) THEN "outcome-" \o o.out
    ELSE LET H2 == After(H, o.c, o.out, r.cl, r) IN
      IF o.out = "subsumed" /\ o.by \notin Subsumers(H, o.c, r.cl, r) THEN "subsumer"
      ELSE IF Ran(o.rem) # H \ H2 \/ Len(o.rem) # Cardinality(H \ H2) THEN "removed"
      ELSE IF o.cnt # <<>> /\ o.cnt # Counters(H2, r.cl) THEN "counters"
      ELSE IF o.cnt = <<>> /\ o.out \in {"improved", "contradicts"} THEN "no-report"
      ELSE Walk(r, i + 1, H2)
Judge(r) == LET b == Walk(r, 1, {}) IN b = "" \/ PrintT(<<"BAD", r.id, b>>)
Init == k = 0
Next == k < Len(Recs) /\ k' = k + 1
Inv == k > 0 => Judge(Recs[k])
=============================================================================
