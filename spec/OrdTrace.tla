------------------------------- MODULE OrdTrace -------------------------------
(* Comparisons answered by the implementation, judged by the definitions of TermOrd. *)
EXTENDS TermOrd, Json
Recs == ndJsonDeserialize("r.ndjson")
VARIABLE k
\* record: id, C, ar, isp, total (1: precedence must be total), up (user precedence facts <<f,g>>: f > g), uw (<<f, w>>),
\*   q: sequence of <<s, t, cmp, gr>>;  l: sequence of [n: literals, flags: <<oriented, max, strict>>, m: matrix of <<cmp, gr>>], nocmp
QOk(q, C) == LET e == Cmp(q[1], q[2], C) IN q[3] = e /\ q[4] = (IF e = 3 THEN 1 ELSE 0)
ClOk(c, C, nocmp) == LET n == Len(c.n) L == c.n
                  cm(i, j) == IF nocmp = 1 THEN 1 ELSE LitCmp(L[i], L[j], C) IN
  /\ \A i, j \in 1..n : c.m[i][j] = <<cm(i, j), IF cm(i, j) = 3 THEN 1 ELSE 0>>
  /\ \A i \in 1..n : /\ c.flags[i][1] = 1 <=> Gt(L[i][2], L[i][3], C)
                     /\ ~ Gt(L[i][3], L[i][2], C)
                     /\ c.flags[i][2] = 1 <=> \A j \in 1..n : cm(j, i) # 3
                     /\ c.flags[i][3] = 1 <=> \A j \in 1..n : j # i => cm(j, i) \notin {2, 3}
Judge(r) ==
  /\ IF PrecOk(r.C) THEN TRUE ELSE PrintT(<<"BAD", r.id, "precedence-no-strict-order">>)
  /\ IF r.total = 1 => PrecTotal(r.C) THEN TRUE ELSE PrintT(<<"BAD", r.id, "precedence-not-total">>)
  /\ IF r.C.kind = "KBO" => WeightOk(r.C, r.ar, r.isp) THEN TRUE ELSE PrintT(<<"BAD", r.id, "weights-not-admissible">>)
  /\ IF (\A i \in DOMAIN r.up : r.C.p[r.up[i][1]][r.up[i][2]] = 3) /\ (\A i \in DOMAIN r.uw : r.C.w[r.uw[i][1]] = r.uw[i][2]) THEN TRUE ELSE PrintT(<<"BAD", r.id, "user-settings-ignored">>)
  /\ LET b == {i \in DOMAIN r.q : ~QOk(r.q[i], r.C)} IN IF b = {} THEN TRUE ELSE LET i == CHOOSE x \in b : \A y \in b : x <= y IN PrintT(<<"BAD", r.id, "comparison", i, Cmp(r.q[i][1], r.q[i][2], r.C)>>)
  /\ LET b == {i \in DOMAIN r.l : ~ClOk(r.l[i], r.C, r.nocmp)} IN IF b = {} THEN TRUE ELSE PrintT(<<"BAD", r.id, "literal-ordering", CHOOSE x \in b : TRUE>>)
Init == k = 0
Next == k < Len(Recs) /\ k' = k + 1
Inv == k > 0 => Judge(Recs[k])
=============================================================================
