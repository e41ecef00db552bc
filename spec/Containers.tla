------------------------------ MODULE Containers ------------------------------
(* The abstract data types behind E's base containers.  Every kind has a state  *)
(* and for an operation o = [o name, a arguments] and an answer r a successor   *)
(* state, or Bad when the answer is not one the abstract type allows.           *)
(*   map:   finite function key -> value, kept as a set of pairs                *)
(*   set2:  two finite sets, seq2: two sequences, deque: one sequence           *)
(*   heap:  finite function id -> key; str: sequence of characters and a file   *)
(*   arr2:  two total functions from integers, zero except for finitely many    *)
EXTENDS Integers, Sequences, FiniteSets, TLC
\* the outcome of a step: the successor state, or no such step
Ok(c, x) == IF c THEN [ok |-> TRUE, s |-> x] ELSE [ok |-> FALSE]
To(x) == Ok(TRUE, x)
None == <<>>                      \* the answer "nothing there"
Bool(b) == <<IF b THEN 1 ELSE 0>>
Keys(m) == {p[1] : p \in m}
Val(m, k) == (CHOOSE p \in m : p[1] = k)[2]
Look(m, k) == IF k \in Keys(m) THEN <<Val(m, k)>> ELSE None
Del(m, k) == {p \in m : p[1] # k}
Put(m, k, v) == Del(m, k) \cup {<<k, v>>}
RECURSIVE Asc(_)
\* the elements of a set of numbers in ascending order
Asc(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE x \in S : \A y \in S : x <= y IN <<x>> \o Asc(S \ {x})
RECURSIVE Flat(_)
Flat(q) == IF q = <<>> THEN <<>> ELSE Head(q) \o Flat(Tail(q))
Listing(m) == LET ks == Asc(Keys(m)) IN Flat([i \in DOMAIN ks |-> <<ks[i], Val(m, ks[i])>>])
MaxOf(S) == CHOOSE x \in S : \A y \in S : x >= y
MinOf(S) == CHOOSE x \in S : \A y \in S : x <= y

MapStep(m, o, a, r) ==
  CASE o = "s" -> IF a[1] \in Keys(m) THEN Ok(r = <<0>>, m) ELSE Ok(r = <<1>>, Put(m, a[1], a[2]))
    [] o = "u" -> Ok(r = (IF a[1] \in Keys(m) THEN <<Val(m, a[1])>> ELSE <<0>>), Put(m, a[1], a[2]))
    [] o = "g" -> Ok(r = (IF a[1] \in Keys(m) THEN <<0, Val(m, a[1])>> ELSE <<1, 0>>), Put(m, a[1], a[2]))
    [] o \in {"f", "F", "b"} -> Ok(r = Look(m, a[1]), m)
    [] o = "x" -> Ok(r = Look(m, a[1]), Del(m, a[1]))
    [] o = "d" -> Ok(r = Bool(a[1] \in Keys(m)), Del(m, a[1]))
    [] o = "n" -> Ok(r = <<Cardinality(m)>>, m)
    [] o = "m" -> Ok(r = (IF m = {} THEN None ELSE <<MaxOf(Keys(m))>>), m)
    [] o = "t" -> Ok(r = Listing(m), m)
    [] o = "l" -> Ok(r = Listing({p \in m : p[1] >= a[1]}), m)
    [] o = "r" -> IF m = {} THEN Ok(r = None, m) ELSE Ok(Len(r) = 2 /\ <<r[1], r[2]>> \in m, m \ {<<r[1], r[2]>>})
\* integer map: an entry with value 0 counts as absent
IMapStep(m, o, a, r) ==
  LET V(k) == IF k \in Keys(m) THEN <<Val(m, k)>> ELSE <<0>>  Set(k, v) == IF v = 0 THEN Del(m, k) ELSE Put(m, k, v) IN
  CASE o = "a" -> To(Set(a[1], a[2]))
    [] o \in {"g", "r"} -> Ok(r = V(a[1]), m)
    [] o = "R" -> Ok(r = V(a[1]), Set(a[1], a[2]))
    [] o = "d" -> Ok(r = V(a[1]), Del(m, a[1]))
    [] o = "i" -> Ok(r = Listing({p \in m : p[1] >= a[1] /\ p[1] <= a[2]}), m)
\* two sets; a[1] says which one the operation is on
SetStep(s, o, a, r) ==
  LET i == a[1]  j == 3 - i  A == s[i]  B == s[j]  W(X) == [s EXCEPT ![i] = X] IN
  CASE o = "s" -> Ok(r = Bool(a[2] \notin A), W(A \cup {a[2]}))
    [] o \in {"f", "b"} -> Ok(r = Bool(a[2] \in A), s)
    [] o \in {"x", "d"} -> Ok(r = Bool(a[2] \in A), W(A \ {a[2]}))
    [] o = "r" -> IF A = {} THEN Ok(r = <<0>>, s) ELSE Ok(Len(r) = 1 /\ r[1] \in A, W(A \ {r[1]}))
    [] o = "n" -> Ok(r = <<Cardinality(A)>>, s)
    [] o \in {"t", "T", "C"} -> Ok(r = Asc(A), s)
    [] o = "I" -> To(W(A \cup B))
    [] o = "M" -> Ok(r = Bool(~(B \subseteq A)), [s EXCEPT ![i] = A \cup B, ![j] = {}])
    [] o = "&" -> Ok(r = Asc(A \cap B), s)
    [] o = "D" -> Ok(r = <<Cardinality(A \ B)>>, W(A \cap B))
    [] o = "=" -> Ok(r = Bool(A = B), s)
    [] o = "<" -> Ok(r = Bool(A \subseteq B), s)
    [] o = "#" -> Ok(IF A \cap B = {} THEN r = <<0>> ELSE Len(r) = 1 /\ r[1] \in A \cap B, s)
    [] o = "P" -> Ok(r = <<Cardinality(A)>> \o Asc(A), s)
RECURSIVE Sorted(_)
\* insertion sort, duplicates kept
Ins(q, x) == LET n == Cardinality({i \in DOMAIN q : q[i] <= x}) IN SubSeq(q, 1, n) \o <<x>> \o SubSeq(q, n + 1, Len(q))
Sorted(q) == IF q = <<>> THEN <<>> ELSE Ins(Sorted(Tail(q)), Head(q))
Set(q) == {q[i] : i \in DOMAIN q}
Front(q) == SubSeq(q, 1, Len(q) - 1)
\* two stacks, growing to the right
StackStep(s, o, a, r) ==
  LET i == a[1]  j == 3 - i  A == s[i]  B == s[j]  n == Len(A)  W(X) == [s EXCEPT ![i] = X]  In == a[2] >= 0 /\ a[2] < n IN
  CASE o = "p" -> To(W(Append(A, a[2])))
    [] o = "o" -> IF n = 0 THEN Ok(r = None, s) ELSE Ok(r = <<A[n]>>, W(Front(A)))
    [] o = "k" -> IF n = 0 THEN Ok(r = None, s) ELSE To(W(Front(A)))
    [] o = "t" -> Ok(r = (IF n = 0 THEN None ELSE <<A[n]>>), s)
    [] o = "u" -> Ok(r = (IF n < 2 THEN None ELSE <<A[n - 1]>>), s)
    [] o = "e" -> Ok(r = (IF In THEN <<A[a[2] + 1]>> ELSE None), s)
    [] o = "a" -> IF In THEN To(W([A EXCEPT ![a[2] + 1] = a[3]])) ELSE To(s)
    [] o = "d" -> IF In THEN To(W(Front([A EXCEPT ![a[2] + 1] = A[n]]))) ELSE To(s)      \* the top fills the hole
    [] o = "n" -> Ok(r = <<n>>, s)
    [] o \in {"l", "C"} -> Ok(r = A, s)
    [] o = "S" -> Ok(r = Sorted(A), W(Sorted(A)))
    [] o = "+" -> Ok(r = A \o B, W(A \o B))
    [] o = "?" -> Ok(r = Bool(a[2] \in Set(A)), s)
    [] o = "R" -> To(W(<<>>))
    [] o = "B" -> LET q == Sorted(A) IN Ok(Len(r) = 1 /\ (IF a[2] \in Set(q) THEN r[1] < n /\ r[1] >= 0 /\ q[r[1] + 1] = a[2] ELSE r[1] = Cardinality({k \in DOMAIN q : q[k] < a[2]})), W(q))
    [] o = "M" -> Ok(r = Asc(Set(A) \cup Set(B)), [s EXCEPT ![i] = Sorted(A), ![j] = Sorted(B)])
\* deque: the oldest element is at the left
QueueStep(q, o, a, r) ==
  LET n == Len(q) IN
  CASE o = "s" -> To(Append(q, a[1]))
    [] o = "b" -> To(<<a[1]>> \o q)
    [] o = "g" -> IF n = 0 THEN Ok(r = None, q) ELSE Ok(r = <<q[1]>>, Tail(q))
    [] o = "h" -> IF n = 0 THEN Ok(r = None, q) ELSE Ok(r = <<q[n]>>, Front(q))
    [] o = "l" -> Ok(r = (IF n = 0 THEN None ELSE <<q[1]>>), q)
    [] o = "m" -> Ok(r = (IF n = 0 THEN None ELSE <<q[n]>>), q)
    [] o = "n" -> Ok(r = <<n>>, q)
    [] o = "t" -> Ok(r = q, q)
    [] o = "R" -> To(<<>>)
HeapStep(m, o, a, r) ==
  LET there == a # <<>> /\ a[1] \in Keys(m) IN
  CASE o = "a" -> To(Put(m, a[1], a[2]))
    [] o = "p" -> IF m = {} THEN Ok(r = None, m) ELSE Ok(Len(r) = 2 /\ <<r[1], r[2]>> \in m /\ \A p \in m : p[2] >= r[2], m \ {<<r[1], r[2]>>})
    [] o = "u" -> IF there THEN To(Put(m, a[1], a[2])) ELSE Ok(r = None, m)
    [] o = "D" -> IF there THEN To(Put(m, a[1], Val(m, a[1]) - a[2])) ELSE Ok(r = None, m)
    [] o = "I" -> IF there THEN To(Put(m, a[1], Val(m, a[1]) + a[2])) ELSE Ok(r = None, m)
    [] o = "r" -> IF there THEN To(Del(m, a[1])) ELSE Ok(r = None, m)
    [] o = "n" -> Ok(r = <<Cardinality(m)>>, m)
\* string and the lines of a file still to be read; a carries the characters meant by the operation
StrStep(s, o, a, r) ==
  LET t == s.t  n == Len(t)  W(x) == [s EXCEPT !.t = x] IN
  CASE o \in {"s", "c", "i", "b", "A"} -> To(W(t \o a))
    [] o = "d" -> IF n = 0 THEN Ok(r = None, s) ELSE Ok(r = <<t[n]>>, W(Front(t)))
    [] o = "e" -> Ok(r = (IF n = 0 THEN None ELSE <<t[n]>>), s)
    [] o = "=" -> To(W(a))
    [] o = "R" -> To(W(<<>>))
    [] o = "m" -> To(s)
    [] o \in {"v", "y"} -> Ok(r = t, s)
    [] o = "a" -> Ok(r = SubSeq(t, a[1] + 1, n), s)
    [] o = "n" -> Ok(r = <<n>>, s)
    [] o = "z" -> Ok(r = (IF n < 2 THEN <<-1>> ELSE SubSeq(t, 2, n - 1)), s)
    [] o = "w" -> To([s EXCEPT !.f = Append(@, a \o <<10>>)])
    [] o = "g" -> IF s.f = <<>> THEN Ok(r = None, W(<<>>)) ELSE Ok(r = <<1>>, [t |-> Head(s.f), f |-> Tail(s.f)])
\* two arrays of unlimited length, zero where nothing was assigned
ArrStep(s, o, a, r) ==
  LET i == a[1]  j == 3 - i  A == s[i]  B == s[j]  V(m, k) == IF k \in Keys(m) THEN Val(m, k) ELSE 0
      St(m, k, v) == IF v = 0 THEN Del(m, k) ELSE Put(m, k, v)  W(X) == [s EXCEPT ![i] = X] IN
  CASE o = "a" -> To(W(St(A, a[2], a[3])))
    [] o = "g" -> Ok(r = <<V(A, a[2])>>, s)
    [] o = "i" -> LET v == V(A, a[2]) + a[3] IN Ok(r = <<v>>, W(St(A, a[2], v)))
    [] o = "d" -> To(W(Del(A, a[2])))
    [] o = "m" -> Ok(r = <<Cardinality(A)>>, s)
    [] o = "u" -> Ok(r = (IF A = {} THEN <<0>> ELSE <<MaxOf(Keys(A)) + 1>>), s)
    [] o = "s" -> LET k == IF A = {} THEN 0 ELSE MaxOf(Keys(A)) + 1 IN Ok(r = <<k>>, W(St(A, k, a[2])))
    [] o = "+" -> LET K == {k \in Keys(A) \cup Keys(B) : k < a[2]} IN
                  To(W({p \in A : p[1] \notin K} \cup {p \in {<<k, V(A, k) + V(B, k)>> : k \in K} : p[2] # 0}))
    [] o = "C" -> To(s)
\* two property bags as sets of bits; the answer lists the bag, all-set, any-set, the selected part, agreement with the other bag
BagStep(s, o, a, r) ==
  LET P == {a[1][i] : i \in DOMAIN a[1]}  Q == {a[2][i] : i \in DOMAIN a[2]}
      n == CASE o = "s" -> [s EXCEPT ![1] = @ \cup P] [] o = "d" -> [s EXCEPT ![1] = @ \ P]
             [] o = "f" -> [s EXCEPT ![1] = (@ \ P) \cup (P \ @)] [] o = "a" -> [s EXCEPT ![1] = (@ \ P) \cup (P \cap Q)]
             [] o = "w" -> <<s[2], s[1]>> [] o = "q" -> s IN
  Ok(r = <<Asc(n[1]), Bool(P \subseteq n[1]), Bool(P \cap n[1] # {}), Asc(P \cap n[1]), Bool(P \cap n[1] = P \cap n[2])>>, n)
\* doubly linked list: a[1] is a position (0: the anchor); forward and backward views agree
ListStep(q, o, a, r) ==
  LET n == CASE o = "s" -> SubSeq(q, 1, a[1]) \o <<a[2]>> \o SubSeq(q, a[1] + 1, Len(q)) [] OTHER -> SubSeq(q, 1, a[1] - 1) \o SubSeq(q, a[1] + 1, Len(q)) IN
  Ok(r = Bool(n = <<>>) \o n \o [i \in DOMAIN n |-> n[Len(n) + 1 - i]], n)
Start(kind) == CASE kind \in {"map", "imap", "heap"} -> {} [] kind \in {"set", "arr", "bag"} -> <<{}, {}>> [] kind = "stk" -> <<<<>>, <<>>>>
                 [] kind \in {"que", "plist"} -> <<>> [] kind = "dstr" -> [t |-> <<>>, f |-> <<>>]
Step(kind, s, o, a, r) == CASE kind = "map" -> MapStep(s, o, a, r) [] kind = "imap" -> IMapStep(s, o, a, r) [] kind = "set" -> SetStep(s, o, a, r)
                 [] kind = "stk" -> StackStep(s, o, a, r) [] kind = "que" -> QueueStep(s, o, a, r) [] kind = "heap" -> HeapStep(s, o, a, r)
                 [] kind = "dstr" -> StrStep(s, o, a, r) [] kind = "arr" -> ArrStep(s, o, a, r) [] kind = "bag" -> BagStep(s, o, a, r) [] kind = "plist" -> ListStep(s, o, a, r)
=============================================================================
