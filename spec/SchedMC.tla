------------------------------ MODULE SchedMC ------------------------------
(* all schedules of up to 4 strategies on up to 3 cores: the first N entries of cs and su are used *)
EXTENDS Integers, Sequences, FiniteSets
VARIABLES n, m, cs, su, next, running, failed, res
conf == <<n, m, cs, su>>
S == INSTANCE Sched WITH N <- n, MaxCores <- m, Cores <- cs, Succ <- su
Init == n \in 0..4 /\ m \in 1..3 /\ cs \in [1..4 -> 1..3] /\ su \in [1..4 -> BOOLEAN] /\ (\A i \in 1..4 : cs[i] <= m /\ (i > n => cs[i] = 1 /\ ~su[i])) /\ S!Init
Next == S!Next /\ UNCHANGED conf
Spec == Init /\ [][Next]_<<conf, S!vars>> /\ WF_<<conf, S!vars>>(UNCHANGED conf /\ (S!Start \/ (\E i \in 1..n : S!Fail(i) \/ S!Win(i)) \/ S!Exhaust))
CoresOk == S!CoresOk
Once == S!Once
Right == S!Right
NoStray == S!NoStray
ExhaustedOk == S!ExhaustedOk
Decides == S!Decides
=============================================================================
