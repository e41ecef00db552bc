---------------------------- MODULE SubsumeTrace ----------------------------
(* Histories of subsumption queries against clause sets, judged by Subsume. *)
EXTENDS Subsume, Json
Recs == ndJsonDeserialize("r.ndjson")
VARIABLE k
\* record: id, vt, ft, cl, ops of [o operation, c clause, d clause, res results, cl result clause, full]
RECURSIVE Cur(_,_,_)
Cur(r, i, ins) == IF i = 0 THEN {} ELSE LET p == Cur(r, i - 1, ins) o == r.ops[i] IN IF o.o = ins THEN p \cup {o.c} ELSE IF o.o = "-" THEN p \ {o.c} ELSE p
Ran(s) == {s[i] : i \in DOMAIN s}
OpBad(r, i) ==
  LET o == r.ops[i]  q == r
      S == Cur(r, i - 1, "+")  U == Cur(r, i - 1, "*")  us == {r.cl[x][1] : x \in U}
      C == r.cl[o.c]
      fwd == {x \in S : Subsumes(r.cl[x], C, q)}
      bwd == {x \in S : Subsumes(C, r.cl[x], q)}
      res == Ran(o.res)
      one == IF o.res = <<>> THEN 0 ELSE o.res[1]
      Member(set) == IF set = {} THEN one = 0 ELSE one \in set
      removed == {j \in DOMAIN C : Count(C[j], o.cl) < Count(C[j], C)}
      kept == {j \in DOMAIN C : Count(C[j], o.cl) > 0}
      onlyOld == \A j \in DOMAIN o.cl : Count(o.cl[j], o.cl) <= Count(o.cl[j], C)
  IN CASE o.o \in {"+", "*", "-"} -> ""
       [] o.o = "s" -> IF (one = 1) = Subsumes(C, r.cl[o.d], q) THEN "" ELSE IF one = 1 THEN "not-subsumed" ELSE "missed-subsumption"
       [] o.o \in {"f", "F"} -> IF Member(fwd) THEN "" ELSE IF one = 0 THEN "forward-missed" ELSE "forward-wrong"
       [] o.o = "b" -> IF res = bwd THEN "" ELSE IF res \subseteq bwd THEN "backward-missed" ELSE "backward-wrong"
       [] o.o \in {"B", "l"} -> IF Member(bwd) THEN "" ELSE "first-subsumed-wrong"
       [] o.o = "v" -> IF one = -1 \/ Member(fwd \cap bwd) THEN "" ELSE "variant-wrong"
       [] o.o = "U" -> LET w == {x \in U : UnitSub(r.cl[x][1], C, q)} IN
            IF o.d = 0 THEN (IF Member(w) THEN "" ELSE "unit-set-wrong")
            ELSE IF one = 0 THEN (IF w = {} THEN "" ELSE "strong-missed")
            ELSE IF w # {} \/ \E j \in DOMAIN C : C[j].p = 1 /\ Strong({u \in us : u.p = 1}, C[j].l, C[j].r, q) THEN "" ELSE "strong-wrong"
       [] o.o = "P" -> IF ~onlyOld THEN "literal-invented"
            ELSE IF o.d = 0 /\ \E j \in removed : ~CutPos(us, C[j], q) THEN "cut-unjustified"
            ELSE IF \E j \in removed : ~CutPos(us, C[j], q) /\ ~CutPosStrong(us, C[j], q) THEN "cut-unjustified"
            ELSE IF \E j \in kept : CutPos(us, C[j], q) THEN "cut-missed" ELSE ""
       [] o.o = "N" -> IF ~onlyOld THEN "literal-invented"
            ELSE IF \E j \in removed : ~CutNeg(us, C[j], q) THEN "cut-unjustified"
            ELSE IF \E j \in kept : CutNeg(us, C[j], q) THEN "cut-missed" ELSE ""
       [] o.o = "S" -> LET full == o.d = 1 IN
            IF o.sub = 1 THEN (IF \E j \in DOMAIN C : SameCut(us, C[j], full, q) THEN "" ELSE "unit-subsumption-wrong")
            ELSE IF ~onlyOld THEN "literal-invented"
            ELSE IF \E j \in removed : ~OppCut(us, C[j], full, q) THEN "cut-unjustified"
            ELSE IF \E j \in kept : OppCut(us, C[j], full, q) \/ SameCut(us, C[j], full, q) THEN "cut-missed" ELSE ""
       [] o.o = "X" -> LET SC == {r.cl[x] : x \in S} IN IF ~CtxReach(C, o.cl, SC, q) THEN "context-cut-wrong" ELSE IF CtxDone(o.cl, SC, q) THEN "" ELSE "context-cut-missed"
       [] o.o = "x" -> LET w == {x \in S : \E j \in DOMAIN C : Subsumes(Flip(C, j), r.cl[x], q)} IN IF res = w THEN "" ELSE "context-backward-wrong"
Judge(r) == LET b == {i \in DOMAIN r.ops : OpBad(r, i) # ""} IN
   b = {} \/ LET i == CHOOSE x \in b : \A y \in b : x <= y IN PrintT(<<"BAD", r.id, i, r.ops[i].o, OpBad(r, i)>>)
Init == k = 0
Next == k < Len(Recs) /\ k' = k + 1
Inv == k > 0 => Judge(Recs[k])
=============================================================================
