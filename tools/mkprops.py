#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (single place where the property texts are kept)."""
import json, os
P = []
def p(id, title, stmt, over, qtext, why, files, mech, observe, state=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": observe, "hook_needed": hook}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    assert len(title) <= 80, title
    P.append({"id": id, "title": title, "statement": stmt, "quantifier": {"over": over, "text": qtext},
              "why_tests_cant": why, "anchors": a})

p("C01", "Refutational soundness: no false proof, no unsound derived clause",
  "Whenever the first-order prover reports Unsatisfiable, Theorem or ContradictoryAxioms, the input clauses (with the negated conjecture) have no model. "
  "Every clause it derives during the search is true in every model of the input. This holds for every search strategy, term ordering, literal selection, simplification and splitting setting.",
  ["inputs", "configurations"], "all clausal and first-order inputs x all strategy options",
  "The tests run 33 fixed problems in --auto and compare the final verdict with the expected one; almost all of them are provable, so an unsound inference just proves them faster.",
  ["CLAUSES/ccl_paramod.c", "CLAUSES/ccl_eqnresolution.c", "CLAUSES/ccl_factor.c", "CLAUSES/ccl_rewrite.c", "CLAUSES/ccl_subsumption.c", "CLAUSES/ccl_condensation.c", "CLAUSES/ccl_splitting.c", "CONTROL/cco_simplification.c", "CONTROL/cco_forward_contraction.c", "PROVER/eprover.c"],
  [("generating inferences", "CONTROL/cco_paramodulation.c, CONTROL/cco_eqnresolving.c, CONTROL/cco_factoring.c"), ("contraction", "CONTROL/cco_contraction.c, CLAUSES/ccl_rewrite.c, CLAUSES/ccl_unit_simplify.c"), ("verdict", "PROVER/eprover.c main()")],
  ["SZS status line", "clauses printed with --output-level=6"])

p("C02", "No false saturation: Satisfiable and CounterSatisfiable are always right",
  "Whenever the first-order prover reports Satisfiable or CounterSatisfiable, the input (with the negated conjecture) really has a model, for every search strategy and option setting that still allows this verdict. "
  "On decidable classes where the search terminates, an unsatisfiable input is never answered by a claim of satisfiability.",
  ["inputs", "configurations"], "all inputs x all strategies for which the prover claims saturation",
  "Completeness is lost by any missed inference or over-eager deletion, on inputs where exactly that inference matters; the test problems are provable in many ways and include few satisfiable ones.",
  ["CONTROL/cco_proofproc.c", "CLAUSES/ccl_eqn.c", "CLAUSES/ccl_clausepos_tree.c", "CLAUSES/ccl_global_indices.c", "CLAUSES/ccl_overlap_index.c", "CLAUSES/ccl_freqvectors.c", "TERMS/cte_fp_index.c", "CLAUSES/ccl_pdtrees.c", "HEURISTICS/che_litselection.c", "PROVER/eprover.c"],
  [("complete set of generating inferences over maximal / selected literals", "CONTROL/cco_paramodulation.c"), ("redundancy elimination only of redundant clauses", "CONTROL/cco_contraction.c, CONTROL/cco_simplification.c"), ("saturation verdict", "CONTROL/cco_proofproc.c Saturate, PROVER/eprover.c main()")],
  ["SZS status line"])

p("C03", "Incomplete or limited searches never claim a definite verdict; exit codes agree",
  "If the search was cut short by a limit, by dropping input (relevance filtering) or clauses, or by a calculus setting declared incomplete, the prover reports ResourceOut or GaveUp but never a claim that the problem is satisfiable or the conjecture refutable. "
  "The exit code always corresponds to the printed status, exactly one final status is printed, and whether the status speaks about a theorem or a clause set depends only on whether the input has a conjecture.",
  ["inputs", "configurations"], "all inputs x all limit, filter and calculus options",
  "The tests look only at the SZS status of solvable problems in one mode; no test runs into a limit or checks an exit code.",
  ["PROVER/eprover.c", "CONTROL/cco_proofproc.c", "INOUT/cio_signals.c", "INOUT/cio_output.c", "BASICS/clb_error.h", "CONTROL/cco_sine.c"],
  [("final verdict cascade", "PROVER/eprover.c main()"), ("limit checks", "CONTROL/cco_proofproc.c Saturate"), ("completeness flags", "CLAUSES/ccl_proofstate.h state_is_complete, HEURISTICS heuristic_parms.inf_sys_complete")],
  ["SZS status line", "exit code"])

p("C04", "Proof objects are complete, well founded and sound step by step",
  "When a proof object is requested, the printed derivation ends in the empty clause, every step names only steps printed before it, every leaf is a formula of the input (verbatim up to renaming, with its name, role and file) or a declared definition of a new symbol. "
  "Every step marked as a logical consequence follows from its listed parents, and a step negating the conjecture is its negation.",
  ["inputs", "configurations"], "all provable inputs x strategies x proof-object options",
  "No test requests a proof object, let alone checks one.",
  ["CLAUSES/ccl_derivation.c", "CLAUSES/ccl_inferencedoc.c", "CLAUSES/ccl_clauseinfo.c", "CLAUSES/ccl_formula_wrapper.c", "PROVER/eprover.c"],
  [("derivation stack recorded with each clause", "CLAUSES/ccl_derivation.c ClausePushDerivation"), ("proof extraction and printing", "CLAUSES/ccl_derivation.c DerivationCompute, DerivationPrint")],
  ["output of --proof-object"])

p("C05", "Clausification preserves the models of the input",
  "The clause form computed for first-order input has, on every domain, a model exactly for those interpretations of the input symbols in which all axioms are true and the conjecture is false: every clause-form model satisfies the input and every input model extends to the introduced symbols. "
  "Introduced symbols never clash with input symbols.",
  ["inputs", "configurations"], "all first-order formulas x clausification options",
  "Clausifier errors depend on connective nesting, polarity, quantifier scope and definition thresholds; the tests see only whether a known theorem is still proved.",
  ["CLAUSES/ccl_fcvindexing.c", "CLAUSES/ccl_clausesets.c", "CLAUSES/ccl_tformulae.c", "CLAUSES/ccl_tcnf.c", "CLAUSES/ccl_formulafunc.c", "CLAUSES/ccl_formula_wrapper.c"],
  [("simplification, NNF, miniscoping, Skolemisation, distribution", "CLAUSES/ccl_tcnf.c"), ("definitional renaming", "CLAUSES/ccl_tcnf.c TFormulaGetDefinitions..., CLAUSES/ccl_formulafunc.c")],
  ["output of --cnf"])

p("C06", "Answers to questions are correct",
  "When the prover answers a question, the reported answer tuple (or disjunction of tuples) instantiates the question to a formula that follows from the axioms. "
  "Reported answers contain exactly as many components as the question has outermost existential variables.",
  ["inputs", "configurations"], "all question problems x number of answers x strategies",
  "No test uses questions.",
  ["CLAUSES/ccl_formulafunc.c", "CLAUSES/ccl_clausefunc.c", "CONTROL/cco_proofproc.c", "PROVER/eprover.c"],
  [("answer literals", "CLAUSES/ccl_tformulae.c / ccl_formulafunc.c TFormulaAnnotateQuestion"), ("answer evaluation and printing", "CLAUSES/ccl_clausefunc.c ClauseEvaluateAnswerLits, PrintAnswer")],
  ["SZS answers lines"])

p("C07", "Higher-order proving is sound",
  "Whenever the higher-order prover reports Theorem, Unsatisfiable or ContradictoryAxioms for a typed higher-order problem, the problem has no finite standard model with choice and extensionality violating it. "
  "The higher-order prover never reports Satisfiable or CounterSatisfiable for a problem with higher-order features.",
  ["inputs", "configurations"], "all THF inputs x strategies",
  "A handful of provable HO problems in one mode; unsound lambda handling, extensionality or boolean reasoning only proves more.",
  ["TERMS/cte_lambda.c", "TERMS/cte_ho_csu.c", "CONTROL/cco_ho_inferences.c", "TERMS/cte_ho_bindings.c"],
  [("beta/eta normalisation", "TERMS/cte_lambda.c"), ("HO inferences", "CONTROL/cco_ho_inferences.c"), ("HO unification", "TERMS/cte_ho_csu.c")],
  ["SZS status line"])

p("C08", "Parsing and printing preserve the meaning of the problem",
  "Any problem accepted by the parser is represented with the meaning its text has under the TPTP language rules (precedence, associativity, quantifier scope, equality, quoting, includes with selections, typed declarations), and whatever the system prints of it can be read back to an equivalent problem in the same format. "
  "Malformed input is rejected with an error instead of being silently read as something else.",
  ["inputs"], "all problem files in the supported input formats",
  "The tests parse fixed well-formed files, and compare only verdicts.",
  ["INOUT/cio_scanner.c", "INOUT/cio_streams.c", "CLAUSES/ccl_tformulae.c", "CLAUSES/ccl_eqn.c", "CLAUSES/ccl_clauses.c", "CLAUSES/ccl_formulasets.c", "TERMS/cte_signature.c", "TERMS/cte_termbanks.c"],
  [("scanner and formula parser", "INOUT/cio_scanner.c, CLAUSES/ccl_tformulae.c"), ("printers", "CLAUSES/ccl_tformulae.c TFormulaTPTPPrint, CLAUSES/ccl_clauses.c ClausePrint*")],
  ["eprover --syntax-only --print-formulas, --cnf", "exit code on malformed input"])

p("C10", "Term orderings are reduction orderings",
  "Each configured ordering (Knuth-Bendix and lexicographic path, every implementation) compares terms exactly as its mathematical definition over the configured weights and precedence says; it is irreflexive, transitive, stable under instantiation, monotone, has the subterm property and, with a total or generator-completed precedence, is total on ground terms. "
  "Literals are compared by the multiset extension, and the maximal-literal flags and orientation of equations in a clause agree with it. "
  "The result of a comparison does not depend on cached information or on the history of earlier comparisons.",
  ["inputs", "configurations", "histories"], "all pairs of terms (under substitutions) x weight and precedence settings x implementations",
  "The tests never look at a comparison; a wrong one only changes which proof is found.",
  ["ORDERINGS/cto_kbo.c", "ORDERINGS/cto_kbolin.c", "ORDERINGS/cto_lpo.c", "ORDERINGS/cto_ocb.c", "ORDERINGS/cto_orderings.c", "ORDERINGS/cto_cmpcache.c"],
  [("KBO", "ORDERINGS/cto_kbo.c, ORDERINGS/cto_kbolin.c"), ("LPO", "ORDERINGS/cto_lpo.c"), ("dispatch", "ORDERINGS/cto_orderings.c TOCompare, TOGreater")],
  ["TOCompare / TOGreater results"])

p("C11", "Unification and matching are correct and most general",
  "Unifying two terms succeeds exactly when they have a common instance, and then the bindings made are a most general unifier; matching succeeds exactly when the second term is an instance of the first, and then the bindings make them equal. "
  "A failed attempt, or backtracking after success, leaves all variable bindings exactly as they were.",
  ["inputs", "histories"], "all pairs of terms x prior binding states",
  "Exercised only indirectly; a missed or too specific unifier hides behind alternative proofs.",
  ["TERMS/cte_match_mgu_1-1.c", "TERMS/cte_subst.c", "TERMS/cte_termfunc.c"],
  [("MGU and match computation", "TERMS/cte_match_mgu_1-1.c"), ("substitution stack and backtracking", "TERMS/cte_subst.c")],
  ["results and bindings of unify / match"])

p("C12", "Term indexes never lose a candidate",
  "After any sequence of insertions and deletions, querying a term index returns every stored entry that generalises, is an instance of, or unifies with the query term (as the query asks), and for the demodulator index it returns only entries that really match. "
  "Deleted entries are never returned.",
  ["inputs", "histories"], "all insertion/deletion/query histories x index types",
  "An index that misses a candidate just makes the prover find another proof or run longer; no test checks retrieval.",
  ["CLAUSES/ccl_pdtrees.c", "TERMS/cte_fp_index.c", "TERMS/cte_idx_fp.c", "CLAUSES/ccl_subterm_index.c", "CLAUSES/ccl_overlap_index.c"],
  [("perfect discrimination trees", "CLAUSES/ccl_pdtrees.c"), ("fingerprint index", "TERMS/cte_fp_index.c, TERMS/cte_idx_fp.c")],
  ["retrieval results"])

p("C13", "Subsumption is exact, with and without feature-vector indexing",
  "A clause is reported as subsumed exactly when some other stored clause has an instance whose literals form a sub-multiset of its own (equations taken up to symmetry), whichever index or search path answers; unit-equality subsumption is exact under congruence. "
  "Querying the indexed clause set after any history of insertions and deletions gives the same answer as checking all its clauses.",
  ["inputs", "histories"], "all clause pairs x insertion/deletion histories",
  "Over-eager subsumption silently loses clauses, missed subsumption only costs time; neither is visible in the verdicts of the tests.",
  ["CLAUSES/ccl_subsumption.c", "CLAUSES/ccl_fcvindexing.c", "CLAUSES/ccl_freqvectors.c", "CLAUSES/ccl_unit_simplify.c"],
  [("clause subsumption", "CLAUSES/ccl_subsumption.c"), ("feature vector index", "CLAUSES/ccl_fcvindexing.c, CLAUSES/ccl_freqvectors.c")],
  ["subsumption results"])

p("C14", "Rewriting reaches true normal forms and preserves equality",
  "Normalising a term with a set of oriented equations yields a term equal to the original modulo those equations that no oriented instance of any of them can rewrite further, and repeating the normalisation changes nothing. "
  "The result does not depend on cached rewrite information from earlier queries.",
  ["inputs", "histories"], "all rule sets, terms and query histories",
  "No test runs the normaliser; the prover's verdict hides missed or stale rewrites.",
  ["CLAUSES/ccl_rewrite.c", "PROVER/enormalizer.c", "CLAUSES/ccl_pdtrees.c", "TERMS/cte_termbanks.c"],
  [("normal form computation", "CLAUSES/ccl_rewrite.c ComputeLINormalform"), ("rewrite links and dates", "TERMS/cte_termtypes.h rw_data")],
  ["enormalizer output"])

p("C15", "Shared term bank: one object per term, references never dangle",
  "Within a term bank two structurally equal terms are always represented by the same object, and every stored term keeps its structure and its derived attributes (weight, groundness, variable-freeness) for as long as it is referenced. "
  "Garbage collection removes only terms not reachable from registered roots.",
  ["histories", "inputs"], "all histories of insertion, instantiation, replacement and garbage collection",
  "Sharing violations only slow down or silently block inferences; garbage collection hardly triggers in short tests.",
  ["TERMS/cte_termbanks.c", "TERMS/cte_termcellstore.c", "TERMS/cte_termtrees.c", "TERMS/cte_garbage_coll.c"],
  [("insert with sharing", "TERMS/cte_termbanks.c TBInsert*"), ("mark and sweep", "TERMS/cte_garbage_coll.c, TERMS/cte_termbanks.c TBGCSweep")],
  ["term identity and printed form"])

p("C16", "Base containers implement their abstract types",
  "The keyed trees, stacks, queues, heaps, integer maps, dynamic arrays, dynamic strings and property bags used throughout behave as the finite map, sequence, FIFO, priority queue or string they stand for, after any sequence of operations. "
  "Traversal yields each stored element exactly once and in key order for ordered containers.",
  ["histories", "inputs"], "all operation sequences",
  "Never tested directly; errors depend on sizes, growth steps, deletion order and tree shapes.",
  ["BASICS/clb_pstacks.c", "BASICS/clb_pqueue.c", "BASICS/clb_ptrees.c", "BASICS/clb_numtrees.c", "BASICS/clb_stringtrees.c", "BASICS/clb_intmap.c", "BASICS/clb_min_heap.c", "BASICS/clb_dstrings.c", "BASICS/clb_pdarrays.c", "BASICS/clb_pdrangearrays.c", "BASICS/clb_quadtrees.c", "BASICS/clb_objtrees.c", "BASICS/clb_partial_orderings.c"],
  [("splay trees", "BASICS/clb_ptrees.c, clb_numtrees.c, clb_stringtrees.c, clb_objtrees.c"), ("arrays, maps and heaps", "BASICS/clb_pdarrays.c, clb_intmap.c, clb_min_heap.c")],
  ["return values of the container operations"])

p("C17", "The search loses no clause: every removal is justified",
  "At every point of a saturation each input or derived clause is kept in exactly one of the prover's clause sets, or was removed for a reason that makes it redundant (tautology, subsumption, replaced by its simplified form, or dropped explicitly with the search declared incomplete). "
  "When the prover claims saturation no clause is left waiting, and every generating inference between kept clauses has been considered.",
  ["histories", "inputs", "configurations"], "all saturation histories",
  "A lost clause is invisible in tests whose problems have many proofs.",
  ["CONTROL/cco_proofproc.c", "CLAUSES/ccl_clausesets.c", "CONTROL/cco_simplification.c", "CONTROL/cco_forward_contraction.c", "CLAUSES/ccl_proofstate.c"],
  [("given-clause loop", "CONTROL/cco_proofproc.c"), ("set membership", "CLAUSES/ccl_clausesets.c")],
  ["event trace of a saturation"], hook="trace of clause-set insertions/extractions and of the reasons clauses are dropped")

p("C18", "Clause selection follows the configured heuristic and is fair",
  "Each given clause is the unprocessed clause with the best evaluation in the queue whose turn it is according to the configured weights of the evaluation functions, with ties broken by age. "
  "With a heuristic that contains an age-based queue every clause is eventually selected or removed as redundant.",
  ["histories", "configurations", "inputs"], "all saturation histories x heuristic definitions",
  "Selection order is never observed by the tests; any order proves the easy problems.",
  ["HEURISTICS/che_hcb.c", "HEURISTICS/che_hcbadmin.c", "CLAUSES/ccl_clausesets.c", "CLAUSES/ccl_neweval.c", "BASICS/clb_simple_stuff.c", "HEURISTICS/che_clauseweight.c", "HEURISTICS/che_fifo.c"],
  [("queue selection", "HEURISTICS/che_hcb.c HCBStandardClauseSelect"), ("evaluation trees", "CLAUSES/ccl_clausesets.c, CLAUSES/ccl_neweval.c")],
  ["order of selected clauses with their evaluations"])

p("C09", "Strategy scheduling: one right result, no lost or stray processes",
  "When several strategies run in parallel worker processes, the result reported is that of a worker that really succeeded, whatever the order, timing and way (success, failure, crash) in which workers finish; if none succeeds the schedule is exhausted and failure is reported. "
  "Never more cores than allowed are in use, each strategy is started at most once, its output is passed on complete and unmixed, and no worker outlives the coordinator's decision.",
  ["schedules", "fault_sequences", "configurations"], "all completion orders, exit statuses and crashes of workers x core counts x schedules",
  "The tests run single-core --auto mode with success in the first strategy.",
  ["CONTROL/cco_scheduling.c", "CONTROL/cco_gproc_ctrl.c", "CONTROL/cco_proc_ctrl.c", "BASICS/clb_os_wrapper.c"],
  [("schedule execution", "CONTROL/cco_scheduling.c ExecuteScheduleMultiCore"), ("process sets", "CONTROL/cco_gproc_ctrl.c")],
  ["printed schedule log, exit status, process table"])

p("C19", "The deduction server keeps its axiom sets exactly as commanded",
  "A session of the interactive server behaves as a state machine over named axiom sets: adding, loading, staging, unstaging, removing, listing and downloading change and show exactly the named set, and every other set stays as it was. "
  "Each command gets exactly one response with the right code, malformed or inapplicable commands change nothing, and a run uses exactly the currently staged sets plus the posted job.",
  ["histories", "inputs"], "all command sequences",
  "No test starts the server.",
  ["CONTROL/cco_einteractive_mode.c", "CONTROL/cco_batch_spec.c", "PROVER/e_deduction_server.c"],
  [("command interpreter", "CONTROL/cco_einteractive_mode.c"), ("staging", "CONTROL/cco_einteractive_mode.c stage_command, unstage_command, remove_command")],
  ["responses on the session connection"])

p("C20", "Messages over TCP arrive complete, in order and unaltered",
  "Every message sent over a connection is delivered to the receiver exactly once, in order and byte for byte, however the network splits, merges or delays the bytes and however the partial reads and writes fall. "
  "A connection that ends in the middle of a message is reported as closed and never yields a truncated message.",
  ["schedules", "fault_sequences", "inputs"], "all fragmentations of the byte stream x message sequences x close points",
  "No test uses the network; on loopback messages normally arrive in one piece.",
  ["INOUT/cio_network.c", "INOUT/cio_simplestuff.c"],
  [("length-prefixed framing", "INOUT/cio_network.c TCPMsgRead, TCPMsgWrite, TCPChannelRead, TCPChannelWrite")],
  ["messages delivered by the channel"])

p("C21", "PCL proof tools keep exactly the steps the proof needs",
  "Extracting a proof from a protocol listing yields precisely the steps from which the final steps are reachable, unchanged and in an order where parents come before children. "
  "Conversion to the other output language never invents, drops or alters a step, and the result is accepted by the tools again. "
  "The step listing the prover writes for a run in default configuration is such a listing.",
  ["inputs"], "all well-formed protocol listings",
  "No test uses the PCL tools.",
  ["PCL2/pcl_protocol.c", "PCL2/pcl_steps.c", "PCL2/pcl_expressions.c", "PCL2/pcl_miniclauses.c", "PROVER/epclextract.c"],
  [("marking of proof steps", "PCL2/pcl_protocol.c PCLProtMarkProofClauses"), ("printing", "PCL2/pcl_steps.c")],
  ["output of epclextract"])

p("C22", "Axiom filtering selects exactly the axioms the relevance measure reaches",
  "Relevance filtering keeps the conjectures (and the hypotheses where the filter uses them as seeds) and exactly those axioms reachable from them under the configured generality measure, benevolence, generosity, recursion depth and size limits, each once. "
  "Selected formulas are passed on unchanged.",
  ["inputs", "configurations"], "all problem files x filter specifications",
  "No test runs the filter directly or compares its selection.",
  ["CONTROL/cco_sine.c", "CLAUSES/ccl_sine.c", "CLAUSES/ccl_f_generality.c", "PROVER/e_axfilter.c"],
  [("D-relation and reachability", "CLAUSES/ccl_sine.c SelectAxioms")],
  ["output of e_axfilter"])

p("C23", "Grounding a problem preserves satisfiability",
  "For clause sets without function symbols and equality the grounder's output is satisfiable exactly when the input is, whatever splitting, unit and instance-reduction options are set; it contains only ground instances of input clauses (or their simplified or split forms). "
  "The propositional output formats describe the same clause set.",
  ["inputs", "configurations"], "all function-free clause sets x grounding options",
  "No test runs the grounder.",
  ["PROVER/eground.c", "CLAUSES/ccl_grounding.c", "CLAUSES/ccl_propclauses.c", "CLAUSES/ccl_groundconstr.c"],
  [("instance generation", "CLAUSES/ccl_grounding.c ClauseSetCreateGroundInstances"), ("propositional simplification", "CLAUSES/ccl_grounding.c GroundSet*")],
  ["eground output"])

p("C24", "The clause filter service maintains exactly the announced clause collection",
  "The clause-collection filter answers every statement as its acceptance rule says (tautologies and subsumed clauses rejected, improving clauses accepted, forced clauses always kept), removes exactly the clauses the newly accepted one subsumes, and its published counters always equal the size, literal count and weight of what it holds. "
  "It announces a contradiction only when one has been accepted or two complementary units are held.",
  ["histories", "inputs"], "all statement sequences",
  "No test runs the service.",
  ["EXTERNAL/cex_csscpa.c", "EXTERNAL/CSSCPA_filter.c", "CLAUSES/ccl_subsumption.c"],
  [("clause processing", "EXTERNAL/cex_csscpa.c CSSCPAProcessClause, CSSCPALoop")],
  ["filter responses"])

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"), "w") as f:
    for x in sorted(P, key=lambda x: x["id"]): f.write(json.dumps(x) + "\n")
