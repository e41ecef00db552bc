------------------------------- MODULE Sched -------------------------------
(* The coordinator of a strategy schedule.  Strategies 1..N are started in order, each in a worker process using cores[i] of MaxCores;
   a worker ends with success (its output contains a success word) or not; the first success seen by the coordinator decides and ends everything,
   after all strategies failed the schedule is exhausted; a termination request ends everything. *)
EXTENDS Integers, Sequences, FiniteSets
VARIABLES N, MaxCores, Cores, Succ          \* the schedule: never changes; Cores, Succ: functions on 1..N
VARIABLES next, running, failed, res        \* res: 0 undecided, i > 0 result of i, -1 exhausted, -2 terminated
vars == <<next, running, failed, res>>
RECURSIVE Sum(_)
Sum(S) == IF S = {} THEN 0 ELSE LET x == CHOOSE y \in S : TRUE IN Cores[x] + Sum(S \ {x})
Init == next = 1 /\ running = {} /\ failed = {} /\ res = 0
Fits == next <= N /\ Cores[next] <= MaxCores - Sum(running)
Start == res = 0 /\ Fits /\ next' = next + 1 /\ running' = running \cup {next} /\ UNCHANGED <<failed, res>>
Fail(i) == res = 0 /\ i \in running /\ ~Succ[i] /\ running' = running \ {i} /\ failed' = failed \cup {i} /\ UNCHANGED <<next, res>>
Win(i) == res = 0 /\ i \in running /\ Succ[i] /\ res' = i /\ running' = {} /\ UNCHANGED <<next, failed>>
Exhaust == res = 0 /\ running = {} /\ next > N /\ res' = -1 /\ UNCHANGED <<next, running, failed>>
Term == res = 0 /\ res' = -2 /\ running' = {} /\ UNCHANGED <<next, failed>>
Next == Start \/ (\E i \in 1..N : Fail(i) \/ Win(i)) \/ Exhaust \/ Term
\* what the schedule guarantees
CoresOk == Sum(running) <= MaxCores
Once == running \cap failed = {} /\ running \cup failed \subseteq 1..(next - 1)
Right == res > 0 => Succ[res]
NoStray == res # 0 => running = {}
ExhaustedOk == res = -1 => \A i \in 1..N : i \in failed /\ ~Succ[i]
Decides == <>(res # 0)
=============================================================================
