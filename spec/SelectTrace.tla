---------------------------- MODULE SelectTrace ----------------------------
(* Histories of the real selection against Select.
   record (kind "h"): q: queues [w, fun, prio, fw, vw, pm], ops: [o, id, c, ev] with o = "I" insertion, "X" removal, "S" selection, "W" evaluation of the whole set anew (all: sequence of [id, ev] in order)
   record (kind "e"): a saturation: q; cl: the clauses evaluated, in order, as [c, at: step of evaluation, sel: step of selection or 0] *)
EXTENDS Select, Json, TLC
Recs == ndJsonDeserialize("r.ndjson")
VARIABLE k
EvalOk(r, c, ev, n) == Len(ev) = Len(r.q) /\ \A i \in DOMAIN r.q : (r.q[i].fun = "other" \/ ev[i].h = Weight(c, r.q[i], n)) /\ (r.q[i].prio = "other" \/ ev[i].p = Prio(c, r.q[i].prio))
RECURSIVE Run(_,_,_,_,_), Again(_,_,_,_,_)
\* S: clauses present, n: evaluations so far, m: selections so far
Again(r, S, all, i, n) == IF i > Len(all) THEN TRUE ELSE (\E x \in S : x.id = all[i].id /\ EvalOk(r, x.c, all[i].ev, n)) /\ Again(r, S, all, i + 1, n + 1)
Run(r, i, S, n, m) ==
  IF i > Len(r.ops) THEN IF r.left = Cardinality(S) THEN "" ELSE "clauses left" ELSE
  LET o == r.ops[i] IN
  CASE o.o = "I" -> IF EvalOk(r, o.c, o.ev, n) THEN Run(r, i + 1, S \cup {[id |-> o.id, c |-> o.c, ev |-> o.ev, age |-> n]}, n + 1, m) ELSE "evaluation in operation " \o ToString(i)
    [] o.o = "X" -> Run(r, i + 1, {x \in S : x.id # o.id}, n, m)
    [] o.o = "W" -> IF {o.all[j].id : j \in DOMAIN o.all} # {x.id : x \in S} \/ Len(o.all) # Cardinality(S) THEN "clauses after evaluating again, operation " \o ToString(i)
                    ELSE IF ~(\A a, b \in DOMAIN o.all : a < b => (CHOOSE x \in S : x.id = o.all[a].id).age < (CHOOSE x \in S : x.id = o.all[b].id).age) THEN "ages after evaluating again, operation " \o ToString(i)
                    ELSE IF ~Again(r, S, o.all, 1, n) THEN "evaluation again, operation " \o ToString(i)
                    ELSE Run(r, i + 1, {LET j == CHOOSE j \in DOMAIN o.all : o.all[j].id = x.id IN [x EXCEPT !.ev = o.all[j].ev, !.age = n + j - 1] : x \in S}, n + Cardinality(S), m)
    [] S = {} -> IF o.id = -1 THEN Run(r, i + 1, S, n, m + 1) ELSE "selection from the empty set in operation " \o ToString(i)
    [] OTHER -> LET b == Best(S, Turn(r.q, m)) IN IF o.id = b.id THEN Run(r, i + 1, S \ {b}, n, m + 1) ELSE "selection in operation " \o ToString(i)
\* a saturation: which selections were of redundant clauses is not visible, so: the clause selected is best in some queue among those present that are selected later
Ev(r, x, a) == [ev |-> [i \in DOMAIN r.q |-> [p |-> Prio(r.cl[x].c, r.q[i].prio), h |-> IF r.q[i].fun = "FIFOWeight" THEN a ELSE Weight(r.cl[x].c, r.q[i], a)]], age |-> a]
BadE(r) == LET sel == {x \in DOMAIN r.cl : r.cl[x].sel > 0}  ev == [x \in sel |-> Ev(r, x, x)]
               bad == {x \in sel : ~\E i \in DOMAIN r.q : \A y \in sel : (r.cl[y].at < r.cl[x].sel /\ r.cl[y].sel > r.cl[x].sel) => Better(ev[x], ev[y], i)} IN
  IF bad = {} THEN "" ELSE "selection of " \o ToString(bad)
Judge(r) == LET b == IF r.kind = "e" THEN BadE(r) ELSE Run(r, 1, {}, 0, 0) IN b = "" \/ PrintT(<<"BAD", r.id, 0, b>>)
Init == k = 0
Next == k < Len(Recs) /\ k' = k + 1
Inv == k > 0 => Judge(Recs[k])
=============================================================================
