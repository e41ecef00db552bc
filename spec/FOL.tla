------------------------------- MODULE FOL -------------------------------
(* Semantics of first-order terms, clauses and formulas over finite interpretations.
   Encoding (JSON arrays produced by the drivers):
     term     <<0, i>> is variable i;  <<s, t1, .., tn>> applies symbol s >= 1
     literal  <<sign, atom>> with sign 1/0, or <<sign, l, r>> for an equation
     clause   <<number of variables, literals>>
     formula  <<1,atom>> <<2,l,r>> <<3,f>> <<4,f,g>> and <<5,f,g>> or <<6,f,g>> implies <<7,f,g>> iff
              <<8,i,f>> forall x_i   <<9,i,f>> exists x_i   <<10>> true   <<11>> false
     interpretation I: for each symbol the table of its values, indexed by 1 + Horner value of the
     arguments in base D; predicates have values 0/1.  Domain 0..D-1. *)
EXTENDS Naturals, Sequences, FiniteSets, TLC

MaxVars == 6
Envs == [d \in 1..5 |-> [n \in 0..MaxVars |-> IF d*n > 20 THEN {} ELSE [1..n -> 0..(d-1)]]]

RECURSIVE TVal(_,_,_,_)
TVal(t, e, I, D) ==
  IF t[1] = 0 THEN e[t[2]]
  ELSE CASE Len(t) = 1 -> I[t[1]][1]
         [] Len(t) = 2 -> I[t[1]][1 + TVal(t[2], e, I, D)]
         [] Len(t) = 3 -> I[t[1]][1 + TVal(t[2], e, I, D) * D + TVal(t[3], e, I, D)]
         [] OTHER -> I[t[1]][1 + (TVal(t[2], e, I, D) * D + TVal(t[3], e, I, D)) * D + TVal(t[4], e, I, D)]

LTrue(l, e, I, D) ==
  IF Len(l) = 2 THEN TVal(l[2], e, I, D) = l[1]
  ELSE (TVal(l[2], e, I, D) = TVal(l[3], e, I, D)) = (l[1] = 1)

CTrueEnv(c, e, I, D) == \E i \in DOMAIN c[2] : LTrue(c[2][i], e, I, D)
CTrue(c, I, D) == \A e \in Envs[D][c[1]] : CTrueEnv(c, e, I, D)

RECURSIVE FTrue(_,_,_,_)
FTrue(f, e, I, D) ==
  CASE f[1] = 1 -> TVal(f[2], e, I, D) = 1
    [] f[1] = 2 -> TVal(f[2], e, I, D) = TVal(f[3], e, I, D)
    [] f[1] = 3 -> ~ FTrue(f[2], e, I, D)
    [] f[1] = 4 -> FTrue(f[2], e, I, D) /\ FTrue(f[3], e, I, D)
    [] f[1] = 5 -> FTrue(f[2], e, I, D) \/ FTrue(f[3], e, I, D)
    [] f[1] = 6 -> FTrue(f[2], e, I, D) => FTrue(f[3], e, I, D)
    [] f[1] = 7 -> FTrue(f[2], e, I, D) <=> FTrue(f[3], e, I, D)
    [] f[1] = 8 -> \A x \in 0..(D-1) : FTrue(f[3], [e EXCEPT ![f[2]] = x], I, D)
    [] f[1] = 9 -> \E x \in 0..(D-1) : FTrue(f[3], [e EXCEPT ![f[2]] = x], I, D)
    [] f[1] = 10 -> TRUE
    [] OTHER -> FALSE

Env0 == [i \in 1..40 |-> 0]
\* closed formula
FModel(f, I, D) == FTrue(f, Env0, I, D)
AllTrue(cs, I, D) == \A i \in DOMAIN cs : CTrue(cs[i], I, D)
=============================================================================
