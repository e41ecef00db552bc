------------------------------ MODULE SelectMC ------------------------------
(* Fairness of selection: with an age-based queue (constant priority) among the queues, a clause present is selected after finitely many selections,
   whatever arrives (up to two clauses after each selection) and whatever the weights.  seq: weights of the unprocessed clauses, oldest first; t: position of a tracked clause (0: selected) *)
EXTENDS Select
CONSTANT Fifo            \* FALSE: no age-based queue (the property then fails)
K == 5
VARIABLES q, n, seq, t
vars == <<q, n, seq, t>>
Queue(k) == [w |-> k]
Init == /\ q \in {<<Queue(a), Queue(b)>> : a \in 1..3, b \in 1..2} /\ n = 0
        /\ seq \in UNION {[1..k -> 1..2] : k \in 1..K} /\ t \in 1..Len(seq)
Pick == IF Fifo /\ Turn(q, n) = 2 THEN 1 ELSE CHOOSE i \in 1..Len(seq) : \A j \in 1..Len(seq) : seq[i] < seq[j] \/ (seq[i] = seq[j] /\ i <= j)
Without(s, i) == SubSeq(s, 1, i - 1) \o SubSeq(s, i + 1, Len(s))
Next == /\ t > 0 /\ LET i == Pick  r == Without(seq, i) IN
           \E m \in 0..2 : \E new \in [1..m -> 1..2] : Len(r) + m <= K /\ seq' = r \o new /\ t' = IF i = t THEN 0 ELSE IF i < t THEN t - 1 ELSE t
        /\ n' = (n + 1) % SumW(q, Len(q)) /\ UNCHANGED q
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Fair == <>(t = 0)
=============================================================================
