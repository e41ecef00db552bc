----------------------------- MODULE TermOrdLaws -----------------------------
(* The definitions of TermOrd are reduction orderings: checked by TLC for every admissible weight assignment and precedence over a small
   signature ($true-like constant a, constant b, unary g, binary h) and all terms up to depth 2 over two variables. *)
EXTENDS TermOrd
CONSTANTS Kind, MaxW
ar == <<0, 0, 1, 2>>
Vars == {<<0, 1>>, <<0, 2>>}
D0 == Vars \cup {<<1>>, <<2>>}
D1 == D0 \cup {<<3, t>> : t \in D0} \cup {<<4, s, t>> : s, t \in D0}
Small == D0 \cup {<<3, t>> : t \in D0} \cup {<<4, s, <<2>>>> : s \in D0} \cup {<<3, <<3, t>>>> : t \in Vars} \cup {<<4, <<0, 1>>, <<0, 2>>>>, <<4, <<0, 2>>, <<0, 1>>>>, <<4, <<3, <<0, 1>>>>, <<0, 2>>>>}
Orders == {p \in [1..4 -> 1..4] : \A i, j \in 1..4 : i # j => p[i] # p[j]}
Mat(o) == [i \in 1..4 |-> [j \in 1..4 |-> IF i = j THEN 2 ELSE IF o[i] > o[j] THEN 3 ELSE 4]]
Weights == {w \in [1..4 -> 0..MaxW] : TRUE}
Configs == IF Kind = "LPO" THEN {[kind |-> "LPO", w |-> <<1, 1, 1, 1>>, vw |-> 1, p |-> Mat(o)] : o \in Orders}
           ELSE {c \in {[kind |-> "KBO", w |-> w, vw |-> v, p |-> Mat(o)] : o \in Orders, w \in Weights, v \in 1..2} : c.w[1] > 0 /\ WeightOk(c, ar, <<0, 0, 0, 0>>)}
RECURSIVE Sub(_,_)
Sub(t, sg) == IF IsVar(t) THEN sg[t[2]] ELSE [i \in DOMAIN t |-> IF i = 1 THEN t[1] ELSE Sub(t[i], sg)]
Substs == {<<a, b>> : a, b \in {<<1>>, <<2>>, <<3, <<1>>>>, <<0, 2>>, <<4, <<0, 1>>, <<2>>>>}}
Ground == {t \in Small : VarsOf(t) = {}}
VARIABLES c, st
Init == c \in Configs /\ st = 0
Next == st = 0 /\ st' = 1 /\ c' = c
Irreflexive == \A t \in Small : ~Gt(t, t, c)
Transitive == \A s, t \in Small : Gt(s, t, c) => \A u \in Small : Gt(t, u, c) => Gt(s, u, c)
Total == \A s, t \in Ground : s = t \/ Gt(s, t, c) \/ Gt(t, s, c)
Stable == \A s, t \in Small : Gt(s, t, c) => \A sg \in Substs : Gt(Sub(s, sg), Sub(t, sg), c)
Monotone == \A s, t \in D0 \cup Ground : Gt(s, t, c) => Gt(<<3, s>>, <<3, t>>, c) /\ \A u \in D0 : Gt(<<4, s, u>>, <<4, t, u>>, c) /\ Gt(<<4, u, s>>, <<4, u, t>>, c)
Subterm == \A t \in D1 : ~IsVar(t) => \A i \in 2..Len(t) : Gt(t, t[i], c)
Lits == {<<s, x[1], x[2]>> : s \in {0, 1}, x \in {<<<<1>>, <<2>>>>, <<<<3, <<1>>>>, <<1>>>>, <<<<0, 1>>, <<2>>>>, <<<<3, <<0, 1>>>>, <<0, 1>>>>, <<<<2>>, <<2>>>>, <<<<3, <<1>>>>, <<2>>>>}}
LitOrder == \A l, m \in Lits : /\ ~(LitGt(l, m, c) /\ LitGt(m, l, c)) /\ (LitEq(l, m) => ~LitGt(l, m, c))
                               /\ \A k \in Lits : LitGt(l, m, c) /\ LitGt(m, k, c) => LitGt(l, k, c)
=============================================================================
