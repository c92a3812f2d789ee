--------------------------- MODULE EndToEndTrace ----------------------------
(* Traces of two real ends (proxies and frame protectors) against EndToEnd.    *)
EXTENDS EndToEnd, TLC, Json, IOUtils
MinusOne == -1
VARIABLES l, cs, viol, cnt
TraceData == ndJsonDeserialize(IOEnv.TRACE)
If(c, why) == IF c THEN {<<"C29", why>>} ELSE {}
Live(s) == {[s |-> s, bad |-> {}, live |-> TRUE]}
Stop(s, b) == {[s |-> s, bad |-> b, live |-> FALSE]}
Go(s, t, b) == IF b = {} THEN Live(t) ELSE Stop(s, b)

EFresh(e) == [ss |-> {[i \in 0..63 |-> <<>>]}, bad |-> {}]
ECrash(e) == {<<p, e.kind>> : p \in {"C26", "C29"}}
Known(s, e) == s[e.i] # <<>>
S(s, e) == s[e.i][1]
Put(s, e, t) == [s EXCEPT ![e.i] = <<t>>]

ENew(s, e) == Go(s, Put(s, e, NewSession([cs |-> e.cs, ss |-> e.ss, cid |-> e.cid, sids |-> e.sids, tgts |-> e.tgts, tix |-> e.tix, lazy |-> e.lazy, cq |-> e.cq, sq |-> e.sq, fl |-> e.fl])),
                 If(~e.ok, "proxies with good parameters refused"))

EHs(s, e) ==
    LET q == S(s, e)
        x == e.side
        sd == q[x]
        k == HsKind(q, x, e.n) IN
    IF sd.gone \/ sd.failed \/ sd.p.fin \/ q[Other(x)].failed THEN Stop(s, {})   \* the application has stopped
    ELSE IF k = "no" THEN Go(s, s, If(e.ok1, "message to the S2A that has to be refused") \cup If(e.fin # sd.p.fin, "finished flag wrong"))
    ELSE LET a == React(q, x, e.i, e.n, k # "next")
             t == HsAfter(q, x, e.i, e.n) IN
         Go(s, Put(s, e, t),
            If(~e.ok1 \/ e.kind # k \/ ~e.wf, "no good message to the S2A")
            \cup If(e.ok1 /\ ~e.saw, "the S2A did not see the bytes of the peer")
            \cup If(e.ok1 /\ e.ok2 = a.err, IF a.err THEN "refusal of the S2A not reported" ELSE "good response of the S2A refused")
            \cup If(e.ok1 /\ e.ok2 /\ ~a.err /\ e.rbc # a.eaten, "bytes consumed wrong")
            \cup If(e.ok1 /\ e.ok2 /\ ~a.err /\ (~e.outok \/ e.outn # a.out + Wire(a.recs)), "bytes for the peer differ from those of the S2A")
            \cup If(e.fin # t[x].p.fin, "finished flag wrong"))

EFp(s, e) ==
    LET q == S(s, e) sd == q[e.side] IN
    IF ~P!Protectable(sd.p) THEN Go(s, s, If(e.ok, "frame protector without a finished handshake"))
    ELSE Go(s, Put(s, e, Open(q, e.side)), If(~e.ok, "no frame protector although the handshake is finished"))
ECtx(s, e) ==
    LET q == S(s, e) sd == q[e.side] IN
    IF ~sd.p.fin THEN Go(s, s, If(e.ok, "context without a finished handshake"))
    ELSE LET c == sd.p.res[1] IN
         Go(s, s, If(~e.ok, "no context although the handshake is finished")
                  \cup If(e.ok /\ (e.su # c.su \/ ~e.ver \/ ~e.app \/ ~e.rsm), "context differs from what was agreed")
                  \cup If(e.ok /\ (e.pid # c.pid \/ e.lid # c.lid), "identities differ from those agreed"))
ESend(s, e) ==
    LET q == S(s, e) x == e.side IN
    IF q[x].ep = <<>> THEN Stop(s, {})
    ELSE Go(s, Put(s, e, Send(q, x, e.i, e.n)),
            If(~e.ok, "data refused") \cup If(e.ok /\ (e.rest # 0 \/ e.recs # Lens(e.n)), "records wrong"))
ERecv(s, e) ==
    LET q == S(s, e) x == e.side sd == q[x] IN
    IF sd.ep = <<>> \/ sd.broken \/ e.k > Len(sd.recs) THEN Stop(s, {})
    ELSE IF RecvOkay(q, x, e.i, e.k)
    THEN LET t == Recv(q, x, e.i, e.k)
             all == [n \in 1..Least(q.cfg.tix, MaxTickets) |-> n]
             any == e.calls > 0
             must == x = "c" /\ q.cfg.tix > 0 /\ ~sd.handed /\ HasData(q, x, e.k)
             may == x = "c" /\ ~sd.handed /\ (must \/ Len(t[x].ep[1].hs.tickets) = MaxTickets) IN
         Go(s, Put(s, e, [t EXCEPT ![x].handed = @ \/ any]),
            If(~e.ok, "authentic records refused")
            \cup If(e.ok /\ (e.dlen # Sum(SubSeq(sd.recs, 1, e.k)) \/ ~e.eq), "the data is not what the other end sent")
            \cup If(e.ok /\ must /\ ~any, "tickets not handed over")
            \cup If(any /\ (~may \/ e.calls # 1 \/ e.handed # all), "wrong tickets handed over")
            \cup If(any /\ (~e.hcid \/ e.hid # Local(q.cfg, x)), "tickets handed over for another connection"))
    ELSE Go(s, Put(s, e, Recv(q, x, e.i, e.k)), If(e.ok, "what the network changed was accepted"))
ENet(s, e) ==
    LET q == S(s, e) x == e.side y == Other(x) sd == q[x] r == e.r + 1
        there == r <= Len(sd.recs)
        src == IF e.act = "reflect" THEN q[y].recs ELSE IF e.act = "from" /\ s[e.j] # <<>> THEN s[e.j][1][x].recs ELSE <<>> IN
    IF ~e.done THEN Live(s)
    ELSE CASE e.act = "flip" -> IF there /\ ~sd.recs[r].mut THEN Live(Put(s, e, Flip(q, x, r))) ELSE Stop(s, {})
           [] e.act = "dup"  -> IF there THEN Live(Put(s, e, Dup(q, x, r))) ELSE Stop(s, {})
           [] e.act = "del"  -> IF there THEN Live(Put(s, e, Del(q, x, r))) ELSE Stop(s, {})
           [] e.act = "swap" -> IF r < Len(sd.recs) THEN Live(Put(s, e, Swap(q, x, r))) ELSE Stop(s, {})
           [] OTHER -> IF r <= Len(src) THEN Live(Put(s, e, Insert(q, x, src[r]))) ELSE Stop(s, {})

EStep(s, e) ==
    IF e.op = "new" THEN ENew(s, e)
    ELSE IF e.op = "none" THEN Live(s)
    ELSE IF ~Known(s, e) THEN Stop(s, {})
    ELSE CASE e.op = "hs" -> EHs(s, e)
           [] e.op = "fp" -> EFp(s, e)
           [] e.op = "ctx" -> ECtx(s, e)
           [] e.op = "drop" -> Live(Put(s, e, [S(s, e) EXCEPT ![e.side].gone = TRUE]))
           [] e.op = "send" -> ESend(s, e)
           [] e.op = "recv" -> ERecv(s, e)
           [] e.op = "net" -> ENet(s, e)
           [] e.op = "spoil" -> Live(Put(s, e, [S(s, e) EXCEPT ![e.side].spoiled = TRUE]))
           [] OTHER -> Stop(s, {<<"C99", "unknown event">>})
R == INSTANCE TraceRun WITH Fresh <- EFresh, Step <- EStep, CrashProps <- ECrash, Trace <- TraceData
Init == R!TInit
Next == R!TNext
=============================================================================
