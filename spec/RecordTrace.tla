---------------------------- MODULE RecordTrace -----------------------------
(* Traces recorded from the real S2ACrypter against Record.                    *)
EXTENDS Record, TLC, Json, IOUtils
VARIABLES l, cs, viol, cnt
TraceData == ndJsonDeserialize(IOEnv.TRACE)
If(c, ps, why) == IF c THEN {<<p, why>> : p \in ps} ELSE {}

Live(ss, b) == {[s |-> x, bad |-> b, live |-> TRUE] : x \in ss}
Stop(s, b) == {[s |-> s, bad |-> b, live |-> FALSE]}

RFresh(e) ==
    LET good == Creatable(e) IN
    [ss |-> IF e.ok /\ good /\ ~e.fired
            THEN {[e |-> Endpoint(e.is, e.os), url |-> e.url, conn |-> e.conn, idk |-> e.idk, id |-> e.id, su |-> e.suite, handed |-> FALSE]}
            ELSE {},
     bad |-> If(good /\ ~e.fired /\ ~e.ok, {"C13", "C01", "C02"}, "connection with good parameters refused")
             \cup If(~good /\ e.ok, {"C13"}, "connection with bad parameters created")
             \cup If(good /\ e.fired /\ e.ok, {"C25"}, "connection created although the library failed")]
RCrash(e) == {<<p, e.kind>> : p \in {"C01", "C02", "C03", "C04", "C05", "C06", "C08", "C09", "C13", "C25", "C26"}}

NoTix(e) == If(e.tix # <<>>, {"C08"}, "tickets handed over at the wrong time or twice")

RSend(c, e) ==
    LET s == c.e
        up(ss) == {[c EXCEPT !.e = x] : x \in ss} IN
    IF SendOk(s, e)
    THEN IF ~e.ok THEN Stop(c, If(TRUE, {"C01", "C02"}, "legal protect failed") \cup If(s.out.sq[1] = LimbBase - 1, {"C03"}, "protect failed before the sequence numbers were used up") \cup If(s.out.ep > 0, {"C05"}, "legal protect failed after a key update"))
         ELSE LET b == If(e.w # e.clen + Overhead, {"C02"}, "wrong number of bytes reported")
                       \cup If(~e.hdr, {"C02"}, "malformed record header")
                       \cup If(~e.tail, {"C02"}, "wrote beyond the record")
                       \cup If(~e.found, {"C01", "C02", "C03", "C05", "C13"}, "record is not under the key and sequence number of RFC 8446")
                       \cup If(e.found /\ e.fe # s.out.ep, {"C05", "C03", "C01"}, "record under the key of another generation")
                       \cup If(e.found /\ e.fe = s.out.ep /\ e.fs # s.out.sq, {"C03", "C01"}, "wrong sequence number")
                       \cup If(e.found /\ (e.it # e.type \/ e.pad # 0), {"C02"}, "wrong content type")
                       \cup If(e.found /\ e.it # e.type, {"C06"}, "wrong content type")
                       \cup If(e.found /\ e.idig # e.cdig, {"C01", "C02"}, "content differs")
                       \cup NoTix(e)
              IN IF b = {} THEN Live(up(SendNext(s, e)), b) ELSE Stop(c, b)
    ELSE LET why == IF ~SendLegal(e) THEN If(e.ok \/ e.found, {"C02"}, "illegal protect emitted a record")
                    ELSE IF s.out.broken THEN If(e.ok \/ e.found, {"C25"}, "record emitted after a failed key update")
                    ELSE IF s.out.ovf THEN If(e.ok \/ e.found, {"C03"}, "record emitted after the last sequence number")
                    ELSE If(e.ok \/ e.found, {"C25"}, "record emitted although the library failed")
             b == why \cup NoTix(e) \cup If(~e.ok /\ e.w # 0, {"C02"}, "failure reports bytes written")
         IN IF b = {} THEN Live(up(SendNext(s, e)), b) ELSE Stop(c, b)

RUpdate(c, e) ==
    LET s == c.e
        up(ss) == {[c EXCEPT !.e = x] : x \in ss} IN
    IF s.out.broken THEN Live({c}, NoTix(e))
    ELSE LET b == If(e.fired /\ e.ok, {"C25"}, "key update succeeded although the library failed")
                  \cup If(~e.fired /\ ~e.ok, {"C05", "C03"}, "key update failed")
                  \cup NoTix(e)
         IN IF b = {} THEN Live(up(UpdateNext(s, e.fired)), b) ELSE Stop(c, b)

\* properties that speak about a delivery of the given class that should not
\* have succeeded
WrongOk(s, e) ==
    LET k == Class(s, e) IN
    CASE k = "closed"   -> If(TRUE, {"C06"}, "record accepted after close")
      [] k = "frame"    -> If(TRUE, {"C04"}, "badly framed record accepted")
      [] k = "auth"     -> If(s.in.broken, {"C25", "C04"}, "record accepted after a failed key update")
                           \cup If(~s.in.broken /\ s.in.ovf, {"C03", "C04"}, "record accepted after the last sequence number")
                           \cup If(Usable(s.in) /\ ~e.mut /\ e.re # s.in.ep, {"C05", "C04"}, "record of another key generation accepted")
                           \cup If(Usable(s.in), {"C04"}, "record accepted that is not the next one")
      [] k = "fault"    -> If(TRUE, {"C25"}, "record accepted although the library failed")
      [] k = "appinmsg" -> If(TRUE, {"C09"}, "data accepted in the middle of a handshake message")
      [] k = "hs"       -> If(TRUE, {"C09"}, "handshake protocol violation accepted")
      [] OTHER          -> If(TRUE, {"C06"}, "control record, unknown type or record without type accepted")
\* ... that should have succeeded
WrongErr(s, e) ==
    LET k == Class(s, e) IN
    CASE k = "app" -> If(TRUE, {"C01", "C04", "C13"}, "authentic record rejected")
                      \cup If(s.in.sq[1] = LimbBase - 1, {"C03"}, "unprotect failed before the sequence numbers were used up")
                      \cup If(s.in.ep > 0, {"C05"}, "authentic record under an updated key rejected")
                      \cup If(e.inner > e.clen + 1, {"C06"}, "padded record rejected")
                      \cup If(s.hs # HsInit, {"C09"}, "data rejected after complete handshake messages")
                      \cup If(s.hs.retrieved \/ s.hs.tickets # <<>>, {"C08"}, "data rejected after tickets")
      [] OTHER     -> If(TRUE, {"C01"}, "handshake record rejected")
                      \cup If(s.in.ep > 0, {"C05"}, "authentic record under an updated key rejected")
                      \cup If(Feed(s.hs, e.runs).f.kudone, {"C05"}, "key update rejected")
                      \cup If(Feed(s.hs, e.runs).f.tk, {"C08"}, "ticket rejected")

TixOf(c, h) == <<[url |-> c.url, conn |-> c.conn, idk |-> c.idk, id |-> c.id, tickets |-> h.tickets, chan |-> TRUE]>>
\* The handler after this record, before any hand-over.
HsAfter(s, e) == IF Class(s, e) = "hs" THEN Feed(s.hs, e.runs).s ELSE s.hs

RRecv(c, e) ==
    LET s == c.e
        up(ss) == {[c EXCEPT !.e = x] : x \in ss}
        k == Class(s, e)
        want == RecvOk(s, e)
        handed == e.tix # <<>>
        tx == IF handed
              THEN IF ~May(s, e) THEN (IF k \in {"hsdead", "appdead"} \/ (k = "hs" /\ RecvOk(s, e) # "yes") THEN {} ELSE NoTix(e))
                   ELSE If(e.tix # TixOf(c, HsAfter(s, e)), {"C08"}, "tickets handed over differ from those received")
              ELSE If(Must(s, e), {"C08"}, "tickets not handed over")
        b0 == IF e.ok /\ want = "no" THEN WrongOk(s, e)
              ELSE IF ~e.ok /\ want = "yes" THEN WrongErr(s, e)
              ELSE {}
        b1 == IF ~e.ok THEN If(e.w # 0, {"C04", "C06"}, "failure reports bytes")
                            \cup If(e.w # 0 /\ e.fired, {"C25"}, "failure reports bytes")
                            \cup If((k = "auth" \/ (k = "fault" /\ e.rt # THs)) /\ e.dirty > 0, IF k = "fault" THEN {"C25"} ELSE {"C04"}, "decrypted bytes left after a failure")
                            \cup If(k \in {"alert", "close", "short", "unknown"} /\ e.dirty > 0, {"C06"}, "bytes of a control record left in the buffer")
              ELSE IF DataAllowed(s, e)
                   THEN If(e.w # e.clen, {"C01", "C06"}, "wrong number of bytes delivered")
                        \cup If(e.w = e.clen /\ e.dig # e.cdig, {"C01"}, "content differs")
                   ELSE If(e.w # 0, {"C06"}, "control record delivered as data")
        b2 == If(k = "close" /\ e.code # "close", {"C06"}, "close notification not reported")
              \cup If(k = "alert" /\ e.code # "alert", {"C06"}, "alert not reported")
              \cup If(k \notin {"close", "closed", "alert"} /\ ~e.ok /\ e.code \in {"close"}, {"C06"}, "close reported without a close notification")
        b == b0 \cup b1 \cup b2 \cup tx
    IN IF b # {} THEN Stop(c, b)
       ELSE Live({[x EXCEPT !.handed = @ \/ handed] : x \in up(RecvNext(s, e, handed))}, {})

\* The end of the connection waits for the ticket sender if it was started.
REnd(c, e) == Stop(c, NoTix(e) \cup If(e.waitable /\ c.handed /\ e.waits = 0, {"C08"}, "connection ended without waiting for the ticket sender")
                      \cup If(~(e.waitable /\ c.handed) /\ e.waits > 0, {"C08"}, "waited for a ticket sender that was not started"))

RStep1(c, e) ==
    CASE e.op = "send"     -> RSend(c, e)
      [] e.op = "update"   -> RUpdate(c, e)
      [] e.op = "recv"     -> RRecv(c, e)
      [] e.op = "end"      -> REnd(c, e)
      [] e.op = "overhead" -> Live({c}, If(e.n # Overhead, {"C02"}, "advertised overhead wrong"))
      [] e.op \in {"hold", "none"} -> Live({c}, {})
      [] OTHER -> Stop(c, {<<"C99", "unknown event">>})

\* The same command many times: the first event, n more that only move the
\* sequence number or the key on, and the one that differs, if any.
RBurst(c, e) ==
    UNION {IF ~r.live \/ r.bad # {} THEN {r}
           ELSE LET x == Repeat(c.e, r.s.e, 1, e.n) IN
                IF x = <<>> THEN Stop(c, {})
                ELSE LET d == [r.s EXCEPT !.e = x[1]] IN
                     IF e.dev THEN RStep1(d, e.last) ELSE Live({d}, {})
           : r \in RStep1(c, e.first)}
RStep(c, e) == IF e.op = "burst" THEN RBurst(c, e) ELSE RStep1(c, e)

R == INSTANCE TraceRun WITH Fresh <- RFresh, Step <- RStep, CrashProps <- RCrash, Trace <- TraceData
Init == R!TInit
Next == R!TNext
=============================================================================
