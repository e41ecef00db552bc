-------------------------------- MODULE Subst --------------------------------
(* Substitutions, matching and unification of (sorted) first-order terms.  A term is <<0, v>> or <<f, t1, .., tn>>.
   A solved form is a sequence over the variables: sg[v] is the (fully applied) value of v, <<0, v>> when free.
   A matcher is a sequence with <<>> for an unbound variable.  Types: vt[v] sort of variable v, ft[f] result sort of symbol f.
   Failure is the empty sequence of results: operators return <<>> or <<result>>. *)
EXTENDS Integers, Sequences, FiniteSets, TLC
IsVar(t) == t[1] = 0
TypeOf(t, vt, ft) == IF IsVar(t) THEN vt[t[2]] ELSE ft[t[1]]
RECURSIVE Apply(_,_), Occurs(_,_)
Apply(sg, t) == IF IsVar(t) THEN sg[t[2]] ELSE [i \in DOMAIN t |-> IF i = 1 THEN t[1] ELSE Apply(sg, t[i])]
Occurs(v, t) == IF IsVar(t) THEN t[2] = v ELSE \E i \in 2..Len(t) : Occurs(v, t[i])
Id(n) == [v \in 1..n |-> <<0, v>>]
Bind(sg, v, u) == LET one == [w \in DOMAIN sg |-> IF w = v THEN u ELSE <<0, w>>] IN [w \in DOMAIN sg |-> Apply(one, sg[w])]
ArgPairs(s, t) == [i \in 1..(Len(s) - 1) |-> <<s[i + 1], t[i + 1]>>]
RECURSIVE Unify(_,_,_,_)
\* es: equations still to solve, sg: solved form so far (idempotent)
Unify(es, sg, vt, ft) ==
  IF es = <<>> THEN <<sg>>
  ELSE LET s == Apply(sg, es[1][1])  t == Apply(sg, es[1][2])  rest == Tail(es) IN
       IF s = t THEN Unify(rest, sg, vt, ft)
       ELSE IF IsVar(s) THEN IF Occurs(s[2], t) \/ TypeOf(s, vt, ft) # TypeOf(t, vt, ft) THEN <<>> ELSE Unify(rest, Bind(sg, s[2], t), vt, ft)
       ELSE IF IsVar(t) THEN IF Occurs(t[2], s) \/ TypeOf(s, vt, ft) # TypeOf(t, vt, ft) THEN <<>> ELSE Unify(rest, Bind(sg, t[2], s), vt, ft)
       ELSE IF s[1] # t[1] THEN <<>> ELSE Unify(ArgPairs(s, t) \o rest, sg, vt, ft)
RECURSIVE Match(_,_,_,_)
\* es: pairs <<pattern, target>>; m: bindings so far; the variables of targets are constants
Match(es, m, vt, ft) ==
  IF es = <<>> THEN <<m>>
  ELSE LET s == es[1][1]  t == es[1][2]  rest == Tail(es) IN
       IF IsVar(s) THEN IF m[s[2]] # <<>> THEN IF m[s[2]] = t THEN Match(rest, m, vt, ft) ELSE <<>>
                        ELSE IF TypeOf(s, vt, ft) # TypeOf(t, vt, ft) THEN <<>> ELSE Match(rest, [m EXCEPT ![s[2]] = t], vt, ft)
       ELSE IF s[1] # t[1] THEN <<>> ELSE Match(ArgPairs(s, t) \o rest, m, vt, ft)
NoBind(n) == [v \in 1..n |-> <<>>]
\* is sg a most general extension of the solved form p under which each pair of es becomes equal?
IsMgu(es, p, sg, vt, ft) ==
  LET ref == Unify(es, p, vt, ft) IN
  /\ ref # <<>>
  /\ \A i \in DOMAIN es : Apply(sg, es[i][1]) = Apply(sg, es[i][2])
  /\ \A v \in DOMAIN sg : /\ Apply(sg, p[v]) = sg[v]
                          /\ Apply(sg, sg[v]) = sg[v]
                          /\ TypeOf(sg[v], vt, ft) = vt[v]
                          /\ Apply(ref[1], sg[v]) = ref[1][v]
=============================================================================
