----------------------------- MODULE TcpMsgTrace -----------------------------
(* Recorded transfers of the real message layer judged against TcpMsg: what was *)
(* written, what each call consumed and reported, and what was delivered.       *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
T == INSTANCE TcpMsg WITH Payloads <- {}, MaxMsgs <- 0, MaxChunk <- 0, MaxWire <- 0, sent <- <<>>, out <- <<>>, wire <- <<>>, cut <- TRUE, hd <- <<>>, body <- <<>>, got <- <<>>, status <- "", sched <- <<>>
Recs == ndJsonDeserialize("r.ndjson")
VARIABLE k
\* the wire carries the messages whose sending succeeded and a prefix of the one that failed
WireOk(r) == r.raw \/ LET all == T!Cat(r.sent) IN T!Prefix(r.wire, all) /\ (r.sentok => r.wire = all)
\* sender calls: <<status, bytes>>; success exactly when the message is out
RECURSIVE WrOk(_,_,_)
WrOk(ms, ws, left) == IF ws = <<>> THEN TRUE ELSE LET w == Head(ws)  l == (IF left = 0 THEN Len(Head(ms)) + 4 ELSE left) - w[2] IN
    IF w[1] = 1 THEN l > 0 /\ Tail(ws) = <<>> ELSE IF w[1] = 3 THEN l = 0 /\ WrOk(Tail(ms), Tail(ws), 0) ELSE w[1] = 0 /\ l > 0 /\ WrOk(ms, Tail(ws), l)
\* receiver events on the bytes b: <<"r", status, consumed so far, last read>> or <<"m", payload, consumed>>
MsgLen(b) == T!Num(T!Take(b, 4))
RECURSIVE RdOk(_,_)
RdOk(b, ev) == IF ev = <<>> THEN FALSE ELSE
  LET e == Head(ev)  whole == Len(b) >= 4 /\ MsgLen(b) >= 4 /\ Len(b) >= MsgLen(b) IN
  CASE e.t = "m" -> FALSE
    [] e.s = 3 -> whole /\ e.n = MsgLen(b) /\ Len(ev) > 1 /\ ev[2].t = "m" /\ ev[2].n = MsgLen(b) /\ ev[2].p = SubSeq(b, 5, MsgLen(b)) /\ RdOk(T!Drop(b, MsgLen(b)), Tail(Tail(ev)))
    [] e.s = 0 -> e.n <= Len(b) /\ (e.n < 4 \/ e.n < MsgLen(b)) /\ RdOk(b, Tail(ev))
    [] e.s = 2 -> ~whole /\ e.n = Len(b) /\ Tail(ev) = <<>>            \* closed: only when the bytes ran out in the middle
    [] e.s = 1 -> Tail(ev) = <<>> /\ (e.err \/ (Len(b) >= 4 /\ MsgLen(b) < 4))    \* error: the read failed, or an impossible length
RECURSIVE Block(_,_,_)
\* text block: payloads up to the first "GO\n"
Block(b, acc, n) == IF Len(b) < 4 \/ MsgLen(b) < 4 \/ Len(b) < MsgLen(b) THEN <<"none">> ELSE LET p == SubSeq(b, 5, MsgLen(b)) IN
   IF p = <<71, 79, 10>> THEN <<"block", acc, n + MsgLen(b)>> ELSE Block(T!Drop(b, MsgLen(b)), acc \o p, n + MsgLen(b))
Judge(r) == LET b == T!Take(r.wire, r.cut)
                good == WireOk(r) /\ WrOk(r.sent, r.ws, 0) /\ (IF r.mode = 3 THEN (LET x == Block(b, <<>>, 0) IN IF x[1] = "none" THEN r.block = <<-1>> ELSE r.block = x[2] /\ r.bn = x[3]) ELSE RdOk(b, r.ev)) IN
            good \/ PrintT(<<"BAD", r.id, IF WireOk(r) /\ WrOk(r.sent, r.ws, 0) THEN "receive" ELSE "send">>)
Init == k = 0
Next == k < Len(Recs) /\ k' = k + 1
Inv == k > 0 => Judge(Recs[k])
=============================================================================
