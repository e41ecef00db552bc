------------------------------ MODULE ServerTrace ------------------------------
(* Recorded sessions of the real server: every answer must be the one of the state machine. *)
EXTENDS Server, Json
Recs == ndJsonDeserialize("r.ndjson")
VARIABLE k
Set(q) == {q[i] : i \in 1..Len(q)}
LibOf(r) == [n \in {x.n : x \in Set(r.lib)} |-> LET x == CHOOSE y \in Set(r.lib) : y.n = n IN [text |-> x.t, forms |-> Set(x.f)]]
Cmd(e) == [o |-> e.o, n |-> e.n, t |-> e.t, f |-> Set(e.f)]
(* an entry: the command, and code, noise (messages that belong to no answer), stg, uns, disk, text, used (one list of formulas per prover started), job (start and end reported) *)
Fits(e, a) == /\ e.code = a.code /\ e.noise = 0
              /\ Set(e.stg) = a.stg /\ Set(e.uns) = a.uns /\ Len(e.stg) = Cardinality(a.stg) /\ Len(e.uns) = Cardinality(a.uns)
              /\ Set(e.disk) = a.disk /\ e.text = a.text
              /\ e.o = "RUN" => e.job = 3 /\ (\E i \in 1..Len(e.used) : Set(e.used[i]) = a.used) /\ \A i \in 1..Len(e.used) : Set(e.used[i]) \subseteq a.used
              /\ e.o # "RUN" => e.used = <<>> /\ e.job = 0
RECURSIVE Run(_,_,_,_)
Run(r, lib, i, s) == IF i > Len(r.ops) THEN 0 ELSE LET x == Step(s, lib, r.haslib, Cmd(r.ops[i])) IN IF Fits(r.ops[i], x.a) THEN Run(r, lib, i + 1, x.s) ELSE i
Judge(r) == LET b == Run(r, LibOf(r), 1, <<>>) IN b = 0 \/ PrintT(<<"BAD", r.id, b, r.ops[b].o, r.ops[b].code>>)
Init == k = 0
Next == k < Len(Recs) /\ k' = k + 1
Inv == k > 0 => Judge(Recs[k])
=============================================================================
