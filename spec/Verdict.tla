------------------------------ MODULE Verdict ------------------------------
(* What a run of the prover may report.  The abstract run: the input may lose formulas to a relevance filter, the
   calculus may be a restricted one, clauses may be dropped for lack of memory, limits may stop the search; the run
   ends by finding the empty clause, by running out of unprocessed clauses, or by a limit.  Then a status and an exit
   code are reported.  Truth of the input is a constant of the run. *)
EXTENDS VerdictDefs
CONSTANT MaxSteps
VARIABLES conj, sat, axsat, pruned, restricted, dropped, work, steps, found, usedconj, pc, status, exit
vars == <<conj, sat, axsat, pruned, restricted, dropped, work, steps, found, usedconj, pc, status, exit>>
Init == /\ conj \in BOOLEAN /\ axsat \in BOOLEAN /\ sat \in BOOLEAN /\ (sat => axsat) /\ (~conj => axsat = sat)
        /\ pruned \in BOOLEAN /\ restricted \in BOOLEAN /\ dropped = FALSE /\ work = 1 /\ steps = 0
        /\ found = FALSE /\ usedconj = FALSE /\ pc = "search" /\ status = "none" /\ exit = 99
\* a search step may find the empty clause only if the input is unsatisfiable; it may add, keep or exhaust work
Complete == ~pruned /\ ~restricted /\ ~dropped
Step == /\ pc = "search" /\ work > 0 /\ steps < MaxSteps /\ ~found
        /\ steps' = steps + 1
        /\ \/ /\ ~sat /\ found' = TRUE /\ usedconj' \in {b \in BOOLEAN : b \in (IF conj THEN (IF axsat THEN {TRUE} ELSE BOOLEAN) ELSE {FALSE})} /\ UNCHANGED <<work, dropped>>
           \/ /\ work' \in {w \in 0..3 : w >= work - 1 /\ (w = 0 /\ ~sat => ~Complete)}
              /\ UNCHANGED <<found, usedconj, dropped>>
           \/ /\ dropped' = TRUE /\ work' = work - 1 /\ UNCHANGED <<found, usedconj>>
        /\ UNCHANGED <<conj, sat, axsat, pruned, restricted, pc, status, exit>>
Report(s) == /\ status' = s /\ exit' \in Codes(s) /\ pc' = "done" /\ UNCHANGED <<conj, sat, axsat, pruned, restricted, dropped, work, steps, found, usedconj>>
Finish == /\ pc = "search"
          /\ \/ found /\ Report(IF ~conj THEN "Unsatisfiable" ELSE IF usedconj THEN "Theorem" ELSE "ContradictoryAxioms")
             \/ ~found /\ work = 0 /\ Report(IF Complete THEN (IF conj THEN "CounterSatisfiable" ELSE "Satisfiable") ELSE "GaveUp")
             \/ ~found /\ work > 0 /\ steps >= 1 /\ Report("ResourceOut")
Next == Step \/ Finish
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Done == pc = "done"
NoDefiniteWhenIncomplete == Done /\ (~Complete \/ (work > 0 /\ ~found)) => status \notin Saturated
Truth == Done => (status \in Refuted => ~sat) /\ (status \in Saturated => sat) /\ (status = "ContradictoryAxioms" => ~axsat)
ConjForm == Done => (status \in ConjOnly => conj) /\ (status \in NoConjOnly => ~conj)
ExitOk == Done => exit \in Codes(status)
Ends == <>Done
=============================================================================
