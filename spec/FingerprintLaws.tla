--------------------------- MODULE FingerprintLaws ---------------------------
(* Why fingerprint indexing loses nothing: the symbol found at a sampled position is f, "A" (a variable), "B" (below a variable) or "N" (not in the
   term nor any instance).  For all small terms: unifiable terms have compatible values at every position, and so do a term and its instances. *)
EXTENDS Subst
vt == <<1, 1, 1, 1>>
ft == <<1, 1, 1, 1>>
ar == <<0, 0, 1, 2>>
D0(V) == V \cup {<<1>>, <<2>>}
D1(V) == D0(V) \cup {<<3, t>> : t \in D0(V)} \cup {<<4, s, t>> : s, t \in D0(V)}
D2(V) == D1(V) \cup {<<3, t>> : t \in {u \in D1(V) : Len(u) < 3}} \cup {<<4, s, t>> : s \in {<<3, x>> : x \in V} \cup V, t \in {u \in D1(V) : Len(u) < 3}}
L == D2({<<0, 1>>, <<0, 2>>})
R == D2({<<0, 3>>, <<0, 4>>})
Pos == {<<>>, <<1>>, <<2>>, <<1, 1>>, <<2, 1>>, <<1, 2>>}
RECURSIVE At(_,_)
At(t, p) == IF p = <<>> THEN IF IsVar(t) THEN "A" ELSE ToString(t[1])
            ELSE IF IsVar(t) THEN "B" ELSE IF p[1] > Len(t) - 1 THEN "N" ELSE At(t[p[1] + 1], Tail(p))
UnifOk(a, b) == a = b \/ "B" \in {a, b} \/ ("A" \in {a, b} /\ "N" \notin {a, b})
MatchOk(q, a) == q = a \/ q = "B" \/ (q = "A" /\ a \notin {"N", "B"})       \* a from an instance of the query
VARIABLES s, st
Init == s \in L /\ st = 0
Next == st = 0 /\ st' = 1 /\ UNCHANGED s
UnifSound == \A t \in R : Unify(<< <<s, t>> >>, Id(4), vt, ft) # <<>> => \A p \in Pos : UnifOk(At(s, p), At(t, p))
MatchSound == \A t \in R : Match(<< <<s, t>> >>, NoBind(4), vt, ft) # <<>> => \A p \in Pos : MatchOk(At(s, p), At(t, p))
=============================================================================
