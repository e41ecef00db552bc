---------------------------- MODULE ContainerImpl ----------------------------
(* The data structures used for the deque (a ring buffer that doubles when    *)
(* full) and the priority queue (a binary heap whose elements know their      *)
(* position), shown to refine the abstract types of Containers for every      *)
(* history of operations within the bounds.                                   *)
EXTENDS Containers
CONSTANTS MaxLen, MaxKey, MaxSize0
VARIABLES buf, size, head, tail, q,      \* ring buffer and the abstract deque it stands for
          arr, pos, m,                   \* heap array of ids with keys, position of each id, abstract map
          good                           \* every answer so far was one the abstract type allows
vars == <<buf, size, head, tail, q, arr, pos, m, good>>
Inc(i, n) == (i + 1) % n
Dec(i, n) == IF i = 0 THEN n - 1 ELSE i - 1
\* the part right of head moves to the end of the new space
Grown == [buf |-> [i \in 0..2 * size - 1 |-> IF i < head THEN buf[i] ELSE IF i >= head + size THEN buf[i - size] ELSE 0], size |-> 2 * size, head |-> head, tail |-> tail + size]
Same == [buf |-> buf, size |-> size, head |-> head, tail |-> tail]
Apply(b, x, n) == buf' = b.buf /\ size' = b.size /\ head' = b.head /\ tail' = b.tail /\ good' = n.ok /\ q' = (IF n.ok THEN n.s ELSE q)
Fix(b) == IF b.head = b.tail THEN [buf |-> [i \in 0..2 * b.size - 1 |-> IF i < b.head THEN b.buf[i] ELSE IF i >= b.head + b.size THEN b.buf[i - b.size] ELSE 0], size |-> 2 * b.size, head |-> b.head, tail |-> b.tail + b.size] ELSE b
Store(v) == Len(q) < MaxLen /\ Apply(Fix([Same EXCEPT !.buf = [buf EXCEPT ![head] = v], !.head = Inc(head, size)]), v, To(Append(q, v)))
Bury(v) == Len(q) < MaxLen /\ LET t == Dec(tail, size) IN Apply(Fix([Same EXCEPT !.buf = [buf EXCEPT ![t] = v], !.tail = t]), v, To(<<v>> \o q))
GetNext == q # <<>> /\ Apply([Same EXCEPT !.tail = Inc(tail, size)], 0, QueueStep(q, "g", <<>>, <<buf[tail]>>))
GetLast == q # <<>> /\ LET h == Dec(head, size) IN Apply([Same EXCEPT !.head = h], 0, QueueStep(q, "h", <<>>, <<buf[h]>>))
Card == IF head >= tail THEN head - tail ELSE head + size - tail
RingOk == good /\ Card = Len(q) /\ \A i \in 1..Len(q) : q[i] = buf[(tail + i - 1) % size]
\* heap: arr is a sequence of <<id, key>>, parent of i is i \div 2
Swap(a, i, j) == [a EXCEPT ![i] = a[j], ![j] = a[i]]
RECURSIVE Up(_,_)
Up(a, i) == IF i > 1 /\ a[i][2] < a[i \div 2][2] THEN Up(Swap(a, i, i \div 2), i \div 2) ELSE a
RECURSIVE Down(_,_)
Down(a, i) == LET n == Len(a)  l == 2 * i  r == l + 1
                  c1 == IF l <= n /\ a[l][2] < a[i][2] THEN l ELSE i  c == IF r <= n /\ a[r][2] < a[c1][2] THEN r ELSE c1 IN
              IF c = i THEN a ELSE Down(Swap(a, i, c), c)
Upd(a, i) == IF i > 1 /\ a[i][2] < a[i \div 2][2] THEN Up(a, i) ELSE Down(a, i)
Rem(a, i) == LET n == Len(a) IN IF i = n THEN Front(a) ELSE Upd(Front([a EXCEPT ![i] = a[n]]), i)
SetArr(a, n) == arr' = a /\ pos' = [i \in {a[j][1] : j \in DOMAIN a} |-> CHOOSE j \in DOMAIN a : a[j][1] = i] /\ good' = n.ok /\ m' = (IF n.ok THEN n.s ELSE m)
HAdd(k) == Len(arr) < MaxLen /\ LET id == MinOf((1..MaxLen + 1) \ Keys(m)) IN SetArr(Up(Append(arr, <<id, k>>), Len(arr) + 1), HeapStep(m, "a", <<id, k>>, <<1>>))
HPop == arr # <<>> /\ SetArr(Rem(arr, 1), HeapStep(m, "p", <<>>, arr[1]))
HUpd(id, k) == id \in Keys(m) /\ SetArr(Upd([arr EXCEPT ![pos[id]] = <<id, k>>], pos[id]), HeapStep(m, "u", <<id, k>>, <<1>>))
HRem(id) == id \in Keys(m) /\ SetArr(Rem(arr, pos[id]), HeapStep(m, "r", <<id>>, <<1>>))
HeapOk == good /\ Set(arr) = m /\ Len(arr) = Cardinality(m) /\ (\A i \in 2..Len(arr) : arr[i \div 2][2] <= arr[i][2]) /\ \A id \in Keys(m) : arr[pos[id]][1] = id
Init == \E s \in 1..MaxSize0 : size = s /\ buf = [i \in 0..s - 1 |-> 0] /\ head = 0 /\ tail = 0 /\ q = <<>> /\ arr = <<>> /\ pos = <<>> /\ m = {} /\ good = TRUE
RingNext == UNCHANGED <<arr, pos, m>> /\ ((\E v \in 1..2 : Store(v) \/ Bury(v)) \/ GetNext \/ GetLast)
HeapNext == UNCHANGED <<buf, size, head, tail, q>> /\ ((\E k \in 1..MaxKey : HAdd(k)) \/ HPop \/ \E id \in Keys(m) : HRem(id) \/ \E k \in 1..MaxKey : HUpd(id, k))
RInv == RingOk
HInv == HeapOk
=============================================================================
