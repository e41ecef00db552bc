------------------------------- MODULE ModExt -------------------------------
(* Clausification as a relation between a set of closed formulas F over input symbols 1..N and a clause set C over these
   and introduced symbols N+1..: for every interpretation I of the input symbols,
        F true in I   <=>   some interpretation of the introduced symbols makes C true together with I.
   A record gives one interpretation; where an extension is claimed it is part of the record and checked, where none is
   given for an interpretation satisfying F the specification searches all extensions itself. *)
EXTENDS FOL, Json
Recs == ndJsonDeserialize("r.ndjson")
VARIABLE k
\* record: id, D, I, inf (formulas), cl (clauses), nint (introduced symbols), isp (1: predicate), ext (tables or empty), has (0/1)
RECURSIVE PV(_,_,_,_,_), ArgH(_,_,_,_,_,_,_)
ArgH(t, j, acc, e, I, A, D) == IF j > Len(t) THEN <<1, acc>>
   ELSE LET p == PV(t[j], e, I, A, D) IN IF p[1] = 0 THEN p ELSE ArgH(t, j + 1, acc * D + p[2], e, I, A, D)
PV(t, e, I, A, D) == IF t[1] = 0 THEN <<1, e[t[2]]>>
   ELSE LET h == ArgH(t, 2, 0, e, I, A, D) IN
        IF h[1] = 0 THEN h ELSE IF t[1] <= Len(I) THEN <<1, I[t[1]][h[2] + 1]>>
        ELSE IF <<t[1], h[2]>> \in DOMAIN A THEN <<1, A[<<t[1], h[2]>>]>> ELSE <<0, t[1], h[2]>>
PL(l, e, I, A, D) ==
   LET a == PV(l[2], e, I, A, D) IN
   IF a[1] = 0 THEN a
   ELSE IF Len(l) = 2 THEN <<1, IF a[2] = l[1] THEN 1 ELSE 0>>
   ELSE LET b == PV(l[3], e, I, A, D) IN IF b[1] = 0 THEN b ELSE <<1, IF (a[2] = b[2]) = (l[1] = 1) THEN 1 ELSE 0>>
RECURSIVE PC(_,_,_,_,_,_,_)
\* <<1>> true, <<2>> false, <<0, sym, h>> undetermined
PC(c, j, und, e, I, A, D) == IF j > Len(c[2]) THEN und
   ELSE LET v == PL(c[2][j], e, I, A, D) IN
        IF v[1] = 1 /\ v[2] = 1 THEN <<1>> ELSE PC(c, j + 1, IF v[1] = 0 /\ und[1] = 2 THEN v ELSE und, e, I, A, D)
RECURSIVE Solve(_,_,_)
Solve(r, G, A) == IF G = <<>> THEN TRUE
   ELSE LET g == Head(G) v == PC(r.cl[g[1]], 1, <<2>>, g[2], r.I, A, r.D) IN
        IF v[1] = 1 THEN Solve(r, Tail(G), A) ELSE IF v[1] = 2 THEN FALSE
        ELSE \E x \in 0..(IF r.isp[v[2] - Len(r.I)] = 1 THEN 1 ELSE r.D - 1) : Solve(r, G, A @@ (<<v[2], v[3]>> :> x))
RECURSIVE SetToSeq(_)
SetToSeq(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE y \in S : TRUE IN <<x>> \o SetToSeq(S \ {x})
RECURSIVE Ground(_,_)
Ground(r, i) == IF i > Len(r.cl) THEN <<>> ELSE SetToSeq({<<i, e>> : e \in Envs[r.D][r.cl[i][1]]}) \o Ground(r, i + 1)
Judge(r) ==
  LET F == \A i \in DOMAIN r.inf : FModel(r.inf[i], r.I, r.D) IN
  IF r.has = 1
  THEN IF ~ AllTrue(r.cl, r.I \o r.ext, r.D) THEN PrintT(<<"BAD", r.id, "oracle">>)
       ELSE IF F THEN TRUE ELSE PrintT(<<"BAD", r.id, "clause-form-model-is-no-input-model">>)
  ELSE IF ~F THEN TRUE
       ELSE IF Solve(r, Ground(r, 1), <<>>) THEN PrintT(<<"BAD", r.id, "oracle">>)
       ELSE PrintT(<<"BAD", r.id, "input-model-does-not-extend">>)
Init == k = 0
Next == k < Len(Recs) /\ k' = k + 1
Inv == k > 0 => Judge(Recs[k])
=============================================================================
