----------------------------- MODULE SchedTrace -----------------------------
(* Histories of the real coordinator are behaviours of Sched, and times and cores are allotted as specified.
   record: n strategies given, max cores, pre, ser, limit, frac (64ths), cores given, succ, exit: exit status of each worker (-1: killed), term: 1 if the coordinator was asked to terminate (a worker forked after that leaves at once with status 14),
   sched: strategies announced, lim: cores announced, started: sequence of [cores, time] as announced,
   ev: events <<kind, strategy, value>> kind "S"|"C"|"R"|"X"|"T", rc: exit status of the coordinator, whole: 1 if the result's output came complete and alone,
   alive: workers alive afterwards, wrong: workers that ran with another name or limit than announced, early: completions reported before the worker ended *)
EXTENDS Integers, Sequences, FiniteSets, Json, TLC
Recs == ndJsonDeserialize("r.ndjson")
VARIABLE k
Min(a, b) == IF a < b THEN a ELSE b
Ceil(a, b) == (a + b - 1) \div b
RECURSIVE Times(_,_,_,_)
\* search schedules: strategies until the limit is used up
Times(r, i, sum, acc) == IF i > r.n \/ sum >= r.limit THEN acc ELSE LET t == Min(Ceil(r.frac[i] * r.cores[i] * r.limit, 64), r.limit - sum) IN Times(r, i + 1, sum + t, Append(acc, t))
RECURSIVE SumC(_,_)
SumC(q, i) == IF i > Len(q) THEN 0 ELSE q[i].c + SumC(q, i + 1)
\* a preprocessing schedule is cut to the number of cores
Count(r) == IF r.pre = 1 THEN Min(r.n, r.max) ELSE Len(Times(r, 1, 0, <<>>))
Cap(r) == IF r.pre = 1 /\ r.ser = 1 THEN 1 ELSE r.max
Alloc(r) == LET q == r.started IN
  IF r.sched # Count(r) \/ r.lim # Cap(r) THEN "announced size"
  ELSE IF \E i \in DOMAIN q : q[i].c < 1 THEN "cores below one"
  ELSE IF r.pre = 0 THEN (IF \A i \in DOMAIN q : q[i].c = r.cores[i] /\ q[i].t = Times(r, 1, 0, <<>>)[i] THEN "" ELSE "cores or time of a strategy")
  ELSE IF r.ser = 1 THEN (IF \A i \in DOMAIN q : q[i].c = 1 THEN "" ELSE "serialised cores")
  ELSE IF SumC(q, 1) > r.max \/ (Len(q) = Count(r) /\ Len(q) > 0 /\ SumC(q, 1) # r.max) THEN "sum of cores"
  ELSE IF \A i \in DOMAIN q : q[i].t = q[i].c * r.limit THEN "" ELSE "time of a strategy"
\* the state machine of Sched along the events
CoresOf(r) == [i \in 1..Count(r) |-> IF i <= Len(r.started) THEN r.started[i].c ELSE IF r.pre = 0 THEN r.cores[i] ELSE 1]
St(n, ru, fa, re, pend) == [next |-> n, running |-> ru, failed |-> fa, res |-> re, pend |-> pend]
RECURSIVE Sum(_,_)
Sum(c, S) == IF S = {} THEN 0 ELSE LET x == CHOOSE y \in S : TRUE IN c[x] + Sum(c, S \ {x})
Step(r, c, s, e) ==
  LET N == Count(r)  i == e[2]  fits == s.next <= N /\ c[s.next] <= Cap(r) - Sum(c, s.running) IN
  CASE e[1] = "S" -> IF s.res = 0 /\ s.pend = 0 /\ i = s.next /\ fits THEN St(s.next + 1, s.running \cup {i}, s.failed, 0, 0) ELSE St(0, {}, {}, -9, 0)
    [] e[1] = "C" -> IF s.res = 0 /\ s.pend = 0 /\ i \in s.running /\ (e[3] = r.exit[i] \/ (r.term = 1 /\ e[3] = 14))
                     THEN (IF r.succ[i] = 1 /\ e[3] # 14 THEN St(s.next, s.running, s.failed, 0, i) ELSE St(s.next, s.running \ {i}, s.failed \cup {i}, 0, 0)) ELSE St(0, {}, {}, -9, 0)
    [] e[1] = "R" -> IF s.res = 0 /\ i = s.pend /\ i > 0 THEN St(s.next, {}, s.failed, i, 0) ELSE St(0, {}, {}, -9, 0)
    [] e[1] = "X" -> IF s.res = 0 /\ s.pend = 0 /\ s.running = {} /\ s.next > N THEN St(s.next, {}, s.failed, -1, 0) ELSE St(0, {}, {}, -9, 0)
    [] OTHER -> IF s.res = 0 THEN St(s.next, {}, s.failed, -2, 0) ELSE St(0, {}, {}, -9, 0)
RECURSIVE Run(_,_,_,_)
Run(r, c, i, s) == IF i > Len(r.ev) \/ s.res = -9 THEN (IF s.res = -9 THEN [s EXCEPT !.next = i - 1] ELSE s) ELSE Run(r, c, i + 1, Step(r, c, s, r.ev[i]))
Bad(r) == LET a == Alloc(r) IN IF a # "" THEN a ELSE
  LET s == Run(r, CoresOf(r), 1, St(1, {}, {}, 0, 0)) IN
  IF s.res = -9 THEN "event " \o ToString(s.next)
  ELSE IF s.res = 0 THEN "no decision"
  ELSE IF s.res > 0 /\ r.whole = 0 THEN "output of the result"
  ELSE IF s.res > 0 /\ r.rc # r.exit[s.res] THEN "exit status"
  ELSE IF s.res = -1 /\ r.rc # 77 THEN "exhausted schedule not reported"
  ELSE IF s.res = -2 /\ r.rc # 14 THEN "exit status after termination"
  ELSE IF r.alive > 0 THEN "stray worker" ELSE IF r.wrong > 0 THEN "worker parameters" ELSE IF r.early > 0 THEN "completion before the end" ELSE ""
\* a scheduled run of the prover (kind "e") on a propositional problem: one status, and the right one; its exit status goes with it; nothing left over.
\* the result of the inner (search) schedule is passed on by the outer (preprocessing) one: no line of either comes twice
Sat(r) == \E m \in SUBSET (1..r.vars) : \A i \in DOMAIN r.P : \E j \in DOMAIN r.P[i] : IF r.P[i][j] > 0 THEN r.P[i][j] \in m ELSE -r.P[i][j] \notin m
BadE(r) == IF Len(r.status) # 1 THEN "number of SZS status lines"
  ELSE IF Sat(r) THEN (IF r.status[1] # (IF r.conj = 1 THEN "CounterSatisfiable" ELSE "Satisfiable") THEN "status of a satisfiable problem" ELSE IF r.rc # 1 THEN "exit status" ELSE IF r.alive > 0 THEN "stray worker" ELSE IF r.classes > 1 \/ r.res > 2 THEN "output repeated" ELSE "")
  ELSE IF r.status[1] \notin (IF r.conj = 1 THEN {"Theorem", "ContradictoryAxioms"} ELSE {"Unsatisfiable"}) THEN "status of an unsatisfiable problem" ELSE IF r.rc # 0 THEN "exit status" ELSE IF r.alive > 0 THEN "stray worker" ELSE IF r.classes > 1 \/ r.res > 2 THEN "output repeated" ELSE ""
Judge(r) == LET b == IF r.kind = "e" THEN BadE(r) ELSE Bad(r) IN b = "" \/ PrintT(<<"BAD", r.id, 0, b>>)
Init == k = 0
Next == k < Len(Recs) /\ k' = k + 1
Inv == k > 0 => Judge(Recs[k])
=============================================================================
