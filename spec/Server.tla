-------------------------------- MODULE Server --------------------------------
(* A session of the deduction server (CONTROL/cco_einteractive_mode.c) as a state machine.
   State: the axiom sets of the session, a function from names to [text, forms, staged].  The library on disk is fixed.
   A command is [o: operation, n: name, t: text, f: formulas of the text];  an answer is
   [code, stg, uns, disk, text, used]: response code, sets listed as staged / unstaged / on disk, downloaded text, formulas handed to the provers. *)
EXTENDS Integers, Sequences, FiniteSets, TLC
None == <<>>
Ans(c) == [code |-> c, stg |-> {}, uns |-> {}, disk |-> {}, text |-> "", used |-> {}]
Staged(s) == {n \in DOMAIN s : s[n].staged}
InUse(s) == UNION {s[n].forms : n \in Staged(s)}
Put(s, n, v) == [m \in DOMAIN s \cup {n} |-> IF m = n THEN v ELSE s[m]]
Del(s, n) == [m \in DOMAIN s \ {n} |-> s[m]]
Step(s, lib, haslib, c) ==
  LET n == c.n
      known == n \in DOMAIN s
      R(s2, code) == [s |-> s2, a |-> Ans(code)]
      E(code) == R(s, code) IN
  CASE c.o = "ADD" -> IF known THEN E(401) ELSE R(Put(s, n, [text |-> c.t, forms |-> c.f, staged |-> FALSE]), 205)
    [] c.o = "LOAD" -> IF ~haslib THEN E(408) ELSE IF n \notin DOMAIN lib THEN E(404) ELSE IF known THEN E(401)
                       ELSE R(Put(s, n, [text |-> lib[n].text, forms |-> lib[n].forms, staged |-> FALSE]), 206)
    [] c.o = "STAGE" -> IF ~known THEN E(404) ELSE IF s[n].staged THEN E(405) ELSE R([s EXCEPT ![n].staged = TRUE], 201)
    [] c.o = "UNSTAGE" -> IF ~known THEN E(404) ELSE IF ~s[n].staged THEN E(406) ELSE R([s EXCEPT ![n].staged = FALSE], 202)
    [] c.o = "REMOVE" -> IF ~known THEN E(404) ELSE IF s[n].staged THEN E(403) ELSE R(Del(s, n), 203)
    [] c.o = "DOWNLOAD" -> IF ~known THEN E(404) ELSE [s |-> s, a |-> [Ans(204) EXCEPT !.text = s[n].text]]
    [] c.o = "LIST" -> [s |-> s, a |-> [Ans(200) EXCEPT !.stg = Staged(s), !.uns = DOMAIN s \ Staged(s), !.disk = IF haslib THEN DOMAIN lib ELSE {}]]
    [] c.o = "RUN" -> [s |-> s, a |-> [Ans(200) EXCEPT !.used = InUse(s) \cup c.f]]
    [] c.o = "HELP" -> E(200)
    [] OTHER -> E(407)
=============================================================================
