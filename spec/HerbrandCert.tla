---------------------------- MODULE HerbrandCert ----------------------------
(* Unsatisfiability certificates.  A record carries the input clauses (with variables), a ground
   refutation of instances of them, and whether the prover claimed the input satisfiable.  The spec
   accepts the run iff the refutation is a genuine one (every leaf an instance of an input clause, every
   inner node a resolvent, a paramodulant or an equality-resolvent of its parents, last node empty)
   and the prover did not claim satisfiability.  This is the VerdictOk clause of GivenClause
   (Satisfiable => the input has a model) for first-order logic with equality, by Herbrand's theorem. *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json
Recs == ndJsonDeserialize("r.ndjson")
VARIABLE k
Range(s) == {s[i] : i \in DOMAIN s}
\* node: <<0, input index, substitution, lits>>  <<1, i, j, lits>> resolution  <<2, i, j, lits>> paramodulation  <<3, i, 0, lits>> eq. resolution
RECURSIVE Inst(_,_)
Inst(t, s) == IF t[1] = 0 THEN s[t[2]] ELSE [i \in 1..Len(t) |-> IF i = 1 THEN t[1] ELSE Inst(t[i], s)]
InstLit(l, s) == [i \in 1..Len(l) |-> IF i = 1 THEN l[1] ELSE Inst(l[i], s)]
NegL(l) == [l EXCEPT ![1] = 1 - l[1]]
\* y results from x by replacing some occurrences of s by t (both arguments terms)
RECURSIVE Repl(_,_,_,_)
Repl(x, y, s, t) == \/ x = y
                    \/ x = s /\ y = t
                    \/ /\ Len(x) = Len(y) /\ x[1] = y[1] /\ \A i \in 2..Len(x) : Repl(x[i], y[i], s, t)
ReplLit(x, y, s, t) == Len(x) = Len(y) /\ x[1] = y[1] /\ \A i \in 2..Len(x) : Repl(x[i], y[i], s, t)
NodeOk(r, n) ==
  LET c == Range(n[4]) IN
  CASE n[1] = 0 -> c = {InstLit(r.inp[n[2]][2][i], n[3]) : i \in DOMAIN r.inp[n[2]][2]}
    [] n[1] = 1 -> LET p == Range(r.nodes[n[2]][4]) q == Range(r.nodes[n[3]][4]) IN
                   \E l \in p : NegL(l) \in q /\ c = (p \ {l}) \cup (q \ {NegL(l)})
    [] n[1] = 2 -> LET p == Range(r.nodes[n[2]][4]) q == Range(r.nodes[n[3]][4]) IN
                   \E e \in p : /\ Len(e) = 3 /\ e[1] = 1
                      /\ \E m \in q : \E m2 \in c : /\ (ReplLit(m, m2, e[2], e[3]) \/ ReplLit(m, m2, e[3], e[2]))
                                                    /\ c = (p \ {e}) \cup (q \ {m}) \cup {m2}
    [] OTHER -> LET p == Range(r.nodes[n[2]][4]) IN \E l \in p : Len(l) = 3 /\ l[1] = 0 /\ l[2] = l[3] /\ c = p \ {l}
Unsat(r) == /\ r.nodes[Len(r.nodes)][4] = <<>>
            /\ \A i \in DOMAIN r.nodes : (r.nodes[i][1] # 0 => r.nodes[i][2] < i /\ r.nodes[i][3] < i) /\ NodeOk(r, r.nodes[i])
Judge(r) == /\ IF ~Unsat(r) THEN PrintT(<<"BAD", r.id, "oracle">>) ELSE TRUE
            /\ IF r.claimsat = 1 /\ Unsat(r) THEN PrintT(<<"BAD", r.id, "claimed-satisfiable">>) ELSE TRUE
Init == k = 0
Next == k < Len(Recs) /\ k' = k + 1
Inv == k > 0 => Judge(Recs[k])
=============================================================================
