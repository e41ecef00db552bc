---------------------------- MODULE GivenClause ----------------------------
(* The prover's search as a state machine, instantiated for propositional clauses over a small set of
   atoms so that TLC can explore every input and every schedule of the given-clause loop.
   unproc / proc : the waiting and the active clauses;  removed : clauses dropped so far, each with the
   evidence that made the removal legitimate;  complete : FALSE once anything was cut (axiom filtering,
   dropping of bad clauses, incomplete calculus);  status : the final verdict.
   Checked: Sound, NoLoss, VerdictOk (refutation, saturation and limit discipline). *)
EXTENDS Naturals, FiniteSets, TLC
CONSTANTS Atoms, MaxInput
Lits == Atoms \cup {0 - a : a \in Atoms}
Neg(l) == 0 - l
Taut(c) == \E l \in c : Neg(l) \in c
Clauses == SUBSET Lits
NTClauses == {c \in Clauses : ~Taut(c)}
Vals == [Atoms -> BOOLEAN]
LT(l, v) == IF l > 0 THEN v[l] ELSE ~v[0 - l]
CT(c, v) == \E l \in c : LT(l, v)
ModelsOf(S) == {v \in Vals : \A c \in S : CT(c, v)}
Sat(S) == ModelsOf(S) # {}
Entails(S, c) == \A v \in ModelsOf(S) : CT(c, v)
Resolvents(c, d) == {(c \ {l}) \cup (d \ {Neg(l)}) : l \in {x \in c : Neg(x) \in d}}

VARIABLES input, unproc, proc, removed, complete, status
vars == <<input, unproc, proc, removed, complete, status>>
Running == status = "run"

Init == /\ input \in {S \in SUBSET NTClauses : Cardinality(S) <= MaxInput}
        /\ unproc = input /\ proc = {} /\ removed = {} /\ complete = TRUE /\ status = "run"

\* clause selection with forward contraction of the given clause
Simplified(g, P) ==    \* unit simplification of g by active units: literals refuted by a unit are deleted
  {l \in g : {Neg(l)} \notin P}
Forward(g) ==
  /\ Running /\ g \in unproc
  /\ IF \E d \in proc : d \subseteq g \/ Taut(g)
     THEN /\ unproc' = unproc \ {g} /\ removed' = removed \cup {g} /\ UNCHANGED proc /\ UNCHANGED status
     ELSE LET s == Simplified(g, proc) IN
          IF s = {} THEN /\ status' = "Unsatisfiable" /\ unproc' = unproc /\ proc' = proc /\ removed' = removed
          ELSE LET subs == {d \in proc : s \subseteq d}                                   \* backward subsumption
                   simp == {d \in proc \ subs : Cardinality(s) = 1 /\ \E l \in s : Neg(l) \in d}  \* backward unit simplification
                   P2 == (proc \ (subs \cup simp)) \cup {s}
                   new == (UNION {Resolvents(s, d) : d \in proc \ (subs \cup simp)}) \cup simp
               IN /\ proc' = P2
                  /\ removed' = removed \cup subs \cup (IF s = g THEN {} ELSE {g})
                  /\ unproc' = (unproc \ {g}) \cup {c \in new : ~Taut(c)}
                  /\ status' = IF {} \in new THEN "Unsatisfiable" ELSE "run"
  /\ UNCHANGED <<input, complete>>
\* deletion of bad clauses: allowed only with completeness given up
DropBad(g) == /\ Running /\ g \in unproc /\ unproc' = unproc \ {g} /\ complete' = FALSE
              /\ removed' = removed \cup {g} /\ UNCHANGED <<input, proc, status>>
Limit == /\ Running /\ unproc # {} /\ status' = "ResourceOut" /\ UNCHANGED <<input, unproc, proc, removed, complete>>
Finish == /\ Running /\ unproc = {} /\ status' = (IF complete THEN "Satisfiable" ELSE "GaveUp")
          /\ UNCHANGED <<input, unproc, proc, removed, complete>>
Next == (\E g \in unproc : Forward(g) \/ DropBad(g)) \/ Limit \/ Finish
Spec == Init /\ [][Next]_vars
FairSpec == Spec /\ WF_vars(\E g \in unproc : Forward(g)) /\ WF_vars(Finish)

TypeOk == unproc \subseteq Clauses /\ proc \subseteq Clauses
Sound == \A c \in unproc \cup proc \cup removed : Entails(input, c)
NoLoss == complete => \A c \in input \cup removed : Entails(unproc \cup proc, c)
\* saturation up to redundancy of the active set
ActiveSaturated == complete => \A c, d \in proc : \A r \in Resolvents(c, d) :
                     Taut(r) \/ Entails({x \in unproc \cup proc : TRUE}, r)
VerdictOk == /\ status = "Unsatisfiable" => ~Sat(input)
             /\ status = "Satisfiable" => Sat(input) /\ complete
             /\ ~complete => status # "Satisfiable"
Terminates == <>(status # "run")
=============================================================================
