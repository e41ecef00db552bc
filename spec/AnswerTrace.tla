----------------------------- MODULE AnswerTrace -----------------------------
(* Answers to a question ?[x1..xn]: body over axioms.  An answer is a non-empty set of tuples of n terms; it is correct when in every model of the axioms,
   for all values of the variables of the answer, some tuple satisfies the body.
   record: inp (closed formulas), n, body (x_i is variable i), ans: sequence of [nv: number of variables, tup: sequence of tuples], D, I: interpretations. *)
EXTENDS FOL, Json
Recs == ndJsonDeserialize("r.ndjson")
VARIABLE k
Models(r) == {m \in DOMAIN r.I : \A i \in DOMAIN r.inp : FModel(r.inp[i], r.I[m], r.D[m])}
Holds(r, t, e, m) == LET I == r.I[m]  D == r.D[m] IN FTrue(r.body, [i \in 1..40 |-> IF i <= r.n THEN TVal(t[i], e, I, D) ELSE 0], I, D)
Right(r, a, m) == \A e \in Envs[r.D[m]][a.nv] : \E j \in DOMAIN a.tup : Holds(r, a.tup[j], e, m)
Arity(r, a) == a.tup # <<>> /\ \A j \in DOMAIN a.tup : Len(a.tup[j]) = r.n
Judge(r) == LET M == Models(r) IN
  /\ IF M = {} THEN PrintT(<<"SKIP", r.id>>) ELSE TRUE
  /\ \A i \in DOMAIN r.ans : IF ~ Arity(r, r.ans[i]) THEN PrintT(<<"BAD", r.id, "wrong-number-of-components", i>>)
       ELSE IF \E m \in M : ~ Right(r, r.ans[i], m) THEN PrintT(<<"BAD", r.id, "wrong-answer", i>>) ELSE TRUE
Init == k = 0
Next == k < Len(Recs) /\ k' = k + 1
Inv == k > 0 => Judge(Recs[k])
=============================================================================
