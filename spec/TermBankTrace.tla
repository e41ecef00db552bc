---------------------------- MODULE TermBankTrace ----------------------------
(* Histories of a real term bank replayed against TermBank's rules. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
B == INSTANCE TermBank WITH MaxId <- 0, bank <- {}, next <- 0, roots <- {}, links <- {}
Recs == ndJsonDeserialize("r.ndjson")
VARIABLE k
\* node: [i id, f, a argument ids, w, v, c, g]; a negative id -n is variable n
Nd(ns, i) == ns[CHOOSE j \in DOMAIN ns : ns[j].i = i]
Has(ns, i) == \E j \in DOMAIN ns : ns[j].i = i
RECURSIVE Dec(_,_)
Dec(ns, i) == IF i < 0 THEN <<0, -i>> ELSE LET n == Nd(ns, i) IN <<n.f>> \o [j \in DOMAIN n.a |-> Dec(ns, n.a[j])]
Pairs(ns) == {<<ns[j].i, Dec(ns, ns[j].i)>> : j \in DOMAIN ns}
AttrOk(n, t) == n.v = B!VCnt(t) /\ n.c = B!FCnt(t) /\ n.w = 2 * n.c + n.v /\ n.g = (IF n.v = 0 THEN 3 ELSE 2)
RECURSIVE ArSum(_)
ArSum(S) == IF S = {} THEN 0 ELSE LET t == CHOOSE t \in S : TRUE IN Len(t) - 1 + ArSum(S \ {t})
\* state: live objects M, every object ever seen, links, roots (terms of table entries, <<>> when released), exact: no collection happened since all stored terms were known
Start == [M |-> {}, ever |-> {}, L |-> {}, R |-> <<>>, exact |-> TRUE, base |-> 0, abase |-> 0, bad |-> ""]
Expect(s, o) == CASE o.o \in {"i", "j", "q"} -> o.t
                 [] o.o = "c" -> s.R[o.k]
                 [] o.o = "n" -> B!Apply([v \in 1..Len(o.b) |-> IF o.b[v] = 0 THEN <<0, v>> ELSE s.R[o.b[v]]], s.R[o.k])
                 [] o.o = "r" -> B!Repl(s.R[o.k], s.R[o.x], s.R[o.y])
See(s, ns, what) ==
  LET P == Pairs(ns) IN
  IF \E j \in DOMAIN ns : ~AttrOk(ns[j], Dec(ns, ns[j].i)) THEN [s EXCEPT !.bad = "attribute"]
  ELSE IF ~B!OneToOne(s.M \cup P) THEN [s EXCEPT !.bad = "not-shared"]
  ELSE IF \E x \in P, y \in s.ever : x[1] = y[1] /\ x[2] # y[2] THEN [s EXCEPT !.bad = "object-changed"]
  ELSE [s EXCEPT !.M = @ \cup P, !.ever = @ \cup P]
CountBad(s, o) == o.n # o.cn \/ o.n < s.base + Cardinality(s.M) \/ (s.exact /\ (o.n # s.base + Cardinality(s.M) \/ o.ac # s.abase + ArSum({x[2] : x \in s.M})))
Step(s, o) ==
  IF s.bad # "" THEN s
  ELSE IF o.o = "0" THEN [s EXCEPT !.base = o.n, !.abase = o.ac]
  ELSE IF o.o = "K" THEN (IF CountBad(s, o) THEN [s EXCEPT !.bad = "count"] ELSE s)
  ELSE IF o.o = "w" THEN [s EXCEPT !.L = {l \in @ : l[1] # s.R[o.k]} \cup {<<s.R[o.k], s.R[o.x]>>}]
  ELSE IF o.o = "W" THEN [s EXCEPT !.L = {l \in @ : l[1] # s.R[o.k]}]
  ELSE IF o.o = "d" THEN LET q == See(s, o.ns, 0) IN IF q.bad # "" THEN q ELSE
       IF \E i \in DOMAIN s.R : s.R[i] # <<>> /\ ~B!IsVar(s.R[i]) /\ s.R[i] \notin {x[2] : x \in Pairs(o.ns)} THEN [s EXCEPT !.bad = "root-changed"] ELSE q
  ELSE IF o.o = "g" THEN
       LET keep == {o.ks[i] : i \in DOMAIN o.ks}
           live == B!Reach({s.R[i] : i \in {j \in keep : ~B!IsVar(s.R[j])}}, s.L)
           q == [s EXCEPT !.R = [i \in DOMAIN s.R |-> IF i \in keep THEN s.R[i] ELSE <<>>], !.M = {x \in s.M : x[2] \in live}, !.L = {l \in s.L : l[1] \in live}]
           r == [q EXCEPT !.exact = (o.n = s.base + Cardinality(q.M))] IN
       IF CountBad(r, o) \/ o.n > s.base + Cardinality(s.ever) THEN [r EXCEPT !.bad = "collected-live-term"] ELSE r
  ELSE LET t == Expect(s, o)  q == See(s, o.ns, 0) IN
       IF o.o = "q" THEN
          IF B!IsVar(t) THEN (IF o.r = -t[2] THEN s ELSE [s EXCEPT !.bad = "lookup"])
          ELSE IF o.r = 0 THEN (IF t \in {x[2] : x \in s.M} THEN [s EXCEPT !.bad = "lookup-missed"] ELSE s)
          ELSE IF q.bad # "" THEN q ELSE IF Dec(o.ns, o.r) # t THEN [s EXCEPT !.bad = "lookup-wrong"] ELSE IF s.exact /\ t \notin {x[2] : x \in s.M} THEN [s EXCEPT !.bad = "lookup-invented"] ELSE q
       ELSE IF q.bad # "" THEN q
       ELSE IF Dec(o.ns, o.r) # t THEN [s EXCEPT !.bad = "wrong-term"]
       ELSE [q EXCEPT !.R = Append(@, t)]
RECURSIVE Run(_,_,_)
\* the first operation that goes wrong: <<index, reason>>
Run(r, i, s) == IF s.bad # "" THEN <<i - 1, s.bad>> ELSE IF i > Len(r.ops) THEN <<0, "">> ELSE Run(r, i + 1, Step(s, r.ops[i]))
Judge(r) == LET b == Run(r, 1, Start) IN b[1] = 0 \/ PrintT(<<"BAD", r.id, b[1], r.ops[b[1]].o, b[2]>>)
Init == k = 0
Next == k < Len(Recs) /\ k' = k + 1
Inv == k > 0 => Judge(Recs[k])
=============================================================================
