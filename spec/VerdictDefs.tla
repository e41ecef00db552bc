---------------------------- MODULE VerdictDefs ----------------------------
(* Statuses, exit codes and what they may be reported for. *)
EXTENDS Naturals, Sequences, FiniteSets, TLC
Refuted  == {"Unsatisfiable", "Theorem", "ContradictoryAxioms"}
Saturated == {"Satisfiable", "CounterSatisfiable"}
NoAnswer == {"GaveUp", "ResourceOut"}
Service == {"Unknown"}
ConjOnly == {"Theorem", "ContradictoryAxioms", "CounterSatisfiable"}
NoConjOnly == {"Unsatisfiable", "Satisfiable"}
\* exit codes: NO_ERROR/PROOF_FOUND 0, SATISFIABLE 1, RESOURCE_OUT 9, CPU limit 8, out of memory 2, INCOMPLETE 10
Codes(s) == CASE s \in Refuted -> {0} [] s \in Saturated -> {1} [] s = "ResourceOut" -> {8, 9, 2} [] s = "GaveUp" -> {10} [] OTHER -> {0}

=============================================================================
