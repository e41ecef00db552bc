------------------------------- MODULE TcpMsg -------------------------------
(* E's message layer over a byte stream.  A message is its payload preceded by  *)
(* the total length (payload plus 4) as four bytes, most significant first.     *)
(* The sender writes and the receiver reads arbitrary parts; the connection may *)
(* end anywhere.  The receiver never reads beyond the message it is working on. *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Payloads,      \* payloads the sender may send
          MaxMsgs, MaxChunk, MaxWire
VARIABLES sent,          \* messages handed to the sender
          out,           \* bytes of the current message not yet written
          wire, cut,     \* bytes in flight (a queue), whether the connection has ended
          hd, body,      \* receiver: header bytes so far, payload bytes so far
          got,           \* messages delivered
          status,        \* what the receiver last reported: "wait", "msg", "closed", "error"
          sched          \* sizes of the reads so far
vars == <<sent, out, wire, cut, hd, body, got, status, sched>>
Bytes(n) == <<n \div 16777216, (n \div 65536) % 256, (n \div 256) % 256, n % 256>>
Num(h) == h[1] * 16777216 + h[2] * 65536 + h[3] * 256 + h[4]
Pack(p) == Bytes(Len(p) + 4) \o p
Drop(s, n) == SubSeq(s, n + 1, Len(s))
Take(s, n) == SubSeq(s, 1, n)
\* what the receiver still wants
Want == IF Len(hd) < 4 THEN 4 - Len(hd) ELSE Num(hd) - 4 - Len(body)
Done == Len(hd) = 4 /\ Num(hd) - 4 = Len(body)
Init == sent = <<>> /\ out = <<>> /\ wire = <<>> /\ cut = FALSE /\ hd = <<>> /\ body = <<>> /\ got = <<>> /\ status = "wait" /\ sched = <<>>
Send(p) == out = <<>> /\ Len(sent) < MaxMsgs /\ ~cut /\ sent' = Append(sent, p) /\ out' = Pack(p) /\ UNCHANGED <<wire, cut, hd, body, got, status, sched>>
Write(n) == out # <<>> /\ ~cut /\ n <= Len(out) /\ Len(wire) + n <= MaxWire /\ wire' = wire \o Take(out, n) /\ out' = Drop(out, n) /\ UNCHANGED <<sent, cut, hd, body, got, status, sched>>
Close == ~cut /\ cut' = TRUE /\ out' = <<>> /\ UNCHANGED <<sent, wire, hd, body, got, status, sched>>
Read(n) == status = "wait" /\ ~Done /\ n <= Len(wire) /\ n <= Want /\ n > 0
           /\ wire' = Drop(wire, n) /\ sched' = Append(sched, n)
           /\ (IF Len(hd) < 4 THEN hd' = hd \o Take(wire, n) /\ UNCHANGED body ELSE body' = body \o Take(wire, n) /\ UNCHANGED hd)
           /\ UNCHANGED <<sent, out, cut, got, status>>
Deliver == status = "wait" /\ Done /\ got' = Append(got, body) /\ hd' = <<>> /\ body' = <<>> /\ UNCHANGED <<sent, out, wire, cut, status, sched>>
Eof == status = "wait" /\ cut /\ wire = <<>> /\ ~Done /\ status' = "closed" /\ UNCHANGED <<sent, out, wire, cut, hd, body, got, sched>>
Next == (\E p \in Payloads : Send(p)) \/ (\E n \in 1..MaxChunk : Write(n) \/ Read(n)) \/ Close \/ Deliver \/ Eof
\* exactly once, in order, unaltered; nothing truncated
Prefix(a, b) == Len(a) <= Len(b) /\ \A i \in DOMAIN a : a[i] = b[i]
InOrder == Prefix(got, sent)
NoTruncation == status = "closed" => Prefix(got, sent)
BoundedWant == Want >= 0 \/ Len(hd) = 4
RECURSIVE Cat(_)
Cat(q) == IF q = <<>> THEN <<>> ELSE Pack(Head(q)) \o Cat(Tail(q))
\* every byte is somewhere: delivered, held by the receiver, in flight, or still to be written
Conserved == cut \/ Cat(got) \o hd \o body \o wire \o out = Cat(sent)
View == <<sent, out, wire, cut, hd, body, got, status>>
\* behaviours to replay: a fixed conversation whose bytes are already on the wire, cut anywhere, every sequence of read sizes
GenInit == sent \in {<<p, q>> : p \in Payloads, q \in Payloads} /\ out = <<>> /\ cut = TRUE /\ hd = <<>> /\ body = <<>> /\ got = <<>> /\ status = "wait" /\ sched = <<>>
           /\ \E n \in 0..Len(Cat(sent)) : wire = Take(Cat(sent), n)
GenNext == (\E n \in 1..MaxChunk : Read(n)) \/ Deliver \/ Eof
RECURSIVE Sum(_)
Sum(s) == IF s = <<>> THEN 0 ELSE Head(s) + Sum(Tail(s))
GenPrint == status = "closed" => PrintT(<<"GEN", ToString(sent), Sum(sched), ToString(sched), Len(got)>>)
=============================================================================
