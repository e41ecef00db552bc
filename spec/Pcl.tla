-------------------------------- MODULE Pcl --------------------------------
(* Protocol listings.  A step is [id: sequence of numbers, kind, body: number of its content (equal numbers: equal content), role, rule: number of its
   justification (rule names and nesting), par: sequence of quoted ids, root: 1 if marked proof, final or extract, empty: 1 for the empty clause].
   A listing is a sequence of steps with distinct ids in which every quoted id is the id of a step. *)
EXTENDS Naturals, Sequences, FiniteSets
Ran(s) == {s[i] : i \in DOMAIN s}
Ids(L) == {s.id : s \in Ran(L)}
RECURSIVE LessAt(_,_,_)
LessAt(a, b, i) == IF i > Len(b) THEN FALSE ELSE IF i > Len(a) THEN TRUE ELSE a[i] < b[i] \/ (a[i] = b[i] /\ LessAt(a, b, i + 1))
Less(a, b) == LessAt(a, b, 1)
WellFormed(L) == Cardinality(Ids(L)) = Len(L) /\ \A s \in Ran(L) : Ran(s.par) \subseteq Ids(L)
Parents(L, X) == UNION {Ran(L[i].par) : i \in {j \in DOMAIN L : L[j].id \in X}}
RECURSIVE CloseFrom(_,_,_)
CloseFrom(L, X, new) == IF new = {} THEN X ELSE LET N == Parents(L, new) \ X IN CloseFrom(L, X \cup N, N)
Close(L, X) == CloseFrom(L, X, X)
Roots(L) == {s.id : s \in {t \in Ran(L) : t.root = 1}}
\* fast extraction: the marked steps at the end
RootsAtEnd(L) == {x \in Roots(L) : \A s \in Ran(L) : Less(x, s.id) => s.root = 1}
Kept(L, how) == IF how = "all" THEN Ids(L) ELSE Close(L, IF how = "fast" THEN RootsAtEnd(L) ELSE Roots(L))
Sorted(L) == \A i \in 1..(Len(L) - 1) : Less(L[i].id, L[i + 1].id)
RECURSIVE ParentsFirst(_,_,_)
ParentsFirst(O, i, seen) == i > Len(O) \/ (Ran(O[i].par) \subseteq seen /\ ParentsFirst(O, i + 1, seen \cup {O[i].id}))
\* is O the listing to be printed for L?
Same(s, t) == s.kind = t.kind /\ s.body = t.body /\ s.role = t.role /\ s.rule = t.rule /\ s.par = t.par /\ s.extra = t.extra
Why(L, how, O) ==
  IF ~WellFormed(L) THEN "listing is not well-formed"
  ELSE IF ~(Kept(L, how) \subseteq Ids(O)) THEN "step lost"
  ELSE IF ~(Ids(O) \subseteq Kept(L, how)) THEN "step invented or not needed"
  ELSE IF Len(O) # Cardinality(Ids(O)) THEN "step repeated"
  ELSE IF \E i \in DOMAIN O : ~\E j \in DOMAIN L : L[j].id = O[i].id /\ Same(L[j], O[i]) THEN "step altered"
  ELSE IF ~Sorted(O) THEN "order"
  ELSE IF (\A i \in DOMAIN L : \A p \in Ran(L[i].par) : Less(p, L[i].id)) /\ ~ParentsFirst(O, 1, {}) THEN "parent after child" ELSE ""
Frame(L, how) == IF how = "all" THEN "Derivation" ELSE IF \E s \in Ran(L) : s.empty = 1 /\ (how = "fast" => s.id \in Kept(L, how)) THEN "CNFRefutation" ELSE "Saturation"
=============================================================================
