----------------------------- MODULE RewriteTrace -----------------------------
(* Recorded normalisations: every result is a descendant of its term, irreducible with the demodulators known at the time, and its own normal form. *)
EXTENDS Rewrite, Json
Recs == ndJsonDeserialize("r.ndjson")
VARIABLE k
Cap == 250
(* record: C, ev: events in order
   [t: "d", l, r]              demodulator added
   [t: "x", i]                 demodulator i (in order of addition) taken out
   [t: "n", s, u, v, lvl]      s normalised to u, u normalised to v
   [t: "b", c: clauses as seen before, f: flags: found rewritable, j: index of the demodulator looked for] *)
Kind(l, r, C) == IF Gt(l, r, C) THEN 1 ELSE 0
Ever(ev, n, C) == LET I == {i \in 1..n : ev[i].t = "d"} IN {<<ev[i].l, ev[i].r, Kind(ev[i].l, ev[i].r, C)>> : i \in I}
SeqOf(S) == LET RECURSIVE Q(_) Q(T) == IF T = {} THEN <<>> ELSE LET x == CHOOSE y \in T : TRUE IN <<x>> \o Q(T \ {x}) IN Q(S)
Now(ev, n, C) == LET out == {ev[i].i : i \in {j \in 1..n : ev[j].t = "x"}}
                     I == {i \in 1..n : ev[i].t = "d" /\ ev[i].i \notin out} IN {<<ev[i].l, ev[i].r, Kind(ev[i].l, ev[i].r, C)>> : i \in I}
RECURSIVE Sub(_)
Sub(t) == IF IsVar(t) THEN {} ELSE {t} \cup UNION {Sub(t[i]) : i \in 2..Len(t)}
\* a clause, as a set of pairs <<side, restricted>>: restricted sides (maximal side of an oriented maximal positive literal) may be left alone when the demodulator matches them by renaming only
MustFind(c, d, C) == \E s \in {c[i] : i \in DOMAIN c} : \E t \in (IF s[2] = 1 THEN UNION {Sub(s[1][i]) : i \in 2..Len(s[1])} ELSE Sub(s[1])) : TopReds(t, <<d>>, C, 2) # {}
EvOk(r, n) == LET e == r.ev[n]  C == r.C IN
  CASE e.t = "d" -> IF Gt(e.r, e.l, C) \/ (e.o = 1) # Gt(e.l, e.r, C) THEN "orientation" ELSE "ok"
    [] e.t = "x" -> "ok"
    [] e.t = "n" -> LET D == SeqOf(Ever(r.ev, n, C))  E == SeqOf(Now(r.ev, n, C))  x == Reaches(e.s, e.u, D, C, Cap) IN
                    IF x = 0 THEN "not-equal" ELSE IF Reducible(e.u, E, C, e.lvl) THEN "not-normal" ELSE IF e.v # e.u THEN "not-idempotent" ELSE IF x = 2 THEN "skip" ELSE "ok"
    [] e.t = "b" -> LET d == <<e.l, e.r, Kind(e.l, e.r, C)>> IN
                    IF \E i \in DOMAIN e.c : MustFind(e.c[i], d, C) /\ e.f[i] = 0 THEN "rewritable-clause-missed" ELSE "ok"
Judge(r) == \A n \in DOMAIN r.ev : LET x == EvOk(r, n) IN CASE x = "ok" -> TRUE [] x = "skip" -> PrintT(<<"SKIP", r.id>>) [] OTHER -> PrintT(<<"BAD", r.id, n, x>>)
Init == k = 0
Next == k < Len(Recs) /\ k' = k + 1
Inv == k > 0 => Judge(Recs[k])
=============================================================================
