----------------------------- MODULE FrameTrace -----------------------------
(* Traces recorded from the real S2AFrameProtector against Frame.              *)
EXTENDS Frame, TLC, Json, IOUtils
VARIABLES l, cs, viol, cnt
TraceData == ndJsonDeserialize(IOEnv.TRACE)
If(c, ps, why) == IF c THEN {<<p, why>> : p \in ps} ELSE {}
Live(ss, b) == {[s |-> x, bad |-> b, live |-> TRUE] : x \in ss}
Stop(s, b) == {[s |-> s, bad |-> b, live |-> FALSE]}
Go(s, ss, b) == IF b = {} THEN Live(ss, b) ELSE Stop(s, b)

FFresh(e) ==
    LET good == Creatable(e) IN
    [ss |-> IF e.ok /\ good THEN {Endpoint(e.is, e.os)} ELSE {},
     bad |-> If(good /\ ~e.ok, {"C13", "C01", "C15"}, "frame protector with good parameters refused")
             \cup If(~good /\ e.ok, {"C13"}, "frame protector with bad parameters created")]
FCrash(e) == {<<p, e.kind>> : p \in {"C01", "C02", "C04", "C06", "C14", "C15", "C25", "C26"}}

\* buffers: every allocated one is returned or destroyed, once; no other is
Owned(e) == If(e.leaked # 0, {"C14"}, "allocated buffer neither returned nor destroyed")
            \cup If(e.double # 0, {"C14"}, "buffer destroyed twice")
            \cup If(e.retdead # 0, {"C14"}, "returned buffer was destroyed")
            \cup If(e.foreign # 0, {"C14"}, "buffer destroyed or returned that was not allocated")
            \cup If(e.inmod, {"C14"}, "input buffer modified")
            \cup If(~e.ok /\ e.nret # 0, {"C14"}, "failure returns buffers")

\* the records in the output of a successful call
Emission(s, e) ==
    LET n == RecordsFor(e.clen) IN
    If(e.left # 0 \/ Len(e.recs) # n, {"C15", "C02"}, "message not cut into the minimal number of records")
    \cup If(\E i \in 1..Len(e.recs) : ~e.recs[i].found, {"C01", "C02", "C03"}, "record is not under the key and sequence number of RFC 8446")
    \cup If(\E i \in 1..Len(e.recs) : i <= n /\ e.recs[i].found /\ (e.recs[i].n # RecordLen(e.clen, i)), {"C15", "C02"}, "record sizes wrong")
    \cup If(\E i \in 1..Len(e.recs) : e.recs[i].found /\ (e.recs[i].it # TApp \/ e.recs[i].pad # 0), {"C02"}, "wrong content type")
    \cup If(\E i \in 1..Len(e.recs) : e.recs[i].found /\ (e.recs[i].fe # s.out.ep \/ e.recs[i].fs # OutAfter(s.out, i - 1).sq), {"C03", "C01"}, "wrong sequence number")
    \cup If(e.idig # e.cdig, {"C01", "C15"}, "content differs")

FProtect(s, e) ==
    LET n == RecordsFor(e.clen)
        stuck == Stuck(s.out, 1, n)
        fits == e.single => e.cap >= ProtectedLen(e.clen)
        all == [s EXCEPT !.out = OutAfter(@, n)]
        some == {[s EXCEPT !.out = OutAfter(@, k)] : k \in 0..n} IN
    IF stuck = 0 /\ fits /\ ~e.fired
    THEN IF ~e.ok THEN Stop(s, If(TRUE, {"C01", "C15", "C02"}, "legal protect failed")
                               \cup If(s.out.sq[1] = LimbBase - 1, {"C03"}, "protect failed before the sequence numbers were used up") \cup Owned(e))
         ELSE Go(s, {all}, Emission(s, e) \cup Owned(e)
                           \cup If(~e.single /\ e.total # ProtectedLen(e.clen), {"C02"}, "wrong number of bytes returned")
                           \cup If(~e.tail, {"C02", "C14"}, "wrote beyond the records"))
    ELSE Go(s, some, Owned(e)
                     \cup If(e.ok /\ stuck # 0, {"C03"}, "protected beyond the last sequence number")
                     \cup If(e.ok /\ stuck = 0 /\ ~fits, {"C02"}, "output too small but accepted")
                     \cup If(e.ok /\ stuck = 0 /\ fits, {"C25"}, "protected although the library failed"))

FUnprotect(s, e) ==
    LET t == TakeAll(s, e.recs)
        short == e.total < Overhead
        frame == e.left # 0 \/ e.badhdr
        one == ~e.single \/ Len(e.recs) = 1
        res == IF short \/ (e.single /\ ~one) THEN "no" ELSE IF t.res # "yes" THEN t.res ELSE IF frame THEN "no" ELSE "yes"
        states == IF short \/ (e.single /\ ~one) THEN {s} ELSE IF frame THEN t.ss \cup {s} ELSE t.ss
        b == Owned(e) IN
    IF e.fired
    THEN Stop(s, b \cup If(e.ok, {"C25"}, "records accepted although the library failed"))
    ELSE IF res = "yes"
    THEN IF ~e.ok THEN Stop(s, b \cup If(TRUE, {"C01", "C15", "C04"}, "authentic records rejected"))
         ELSE Go(s, states, b \cup If(e.dlen # e.xlen \/ e.ddig # e.xdig, {"C01", "C15"}, "data differs")
                              \cup If(e.toolong, {"C14", "C15"}, "result longer than its buffer"))
    ELSE IF res = "no"
    THEN Go(s, states, b \cup If(e.ok /\ short, {"C15"}, "too few bytes accepted")
                         \cup If(e.ok /\ ~short /\ ~one, {"C15"}, "several records accepted where one is expected")
                         \cup If(e.ok /\ ~short /\ one /\ t.res = "yes" /\ frame, {"C15"}, "partial record or broken framing accepted")
                         \cup If(e.ok /\ ~short /\ one /\ t.res = "no",
                                 CASE t.why \in {"auth", "frame"} -> {"C04"}
                                   [] t.why = "fault" -> {"C25"}
                                   [] t.why \in {"appinmsg", "hs"} -> {"C09"}
                                   [] OTHER -> {"C06"}, "record accepted that has to be refused")
                         \cup If(~e.ok /\ e.single /\ ~short /\ e.rlen # 0, {"C04"}, "failure reports bytes")
                         \cup If(~e.ok /\ e.single /\ ~short /\ one /\ t.res = "no" /\ t.why = "auth" /\ e.dirty # 0, {"C04"}, "decrypted bytes left after a failure")
                         \cup If(~e.ok /\ e.single /\ ~short /\ one /\ t.res = "no" /\ t.why \in {"alert", "close", "short", "unknown"} /\ e.dirty # 0, {"C06"}, "bytes of a control record left in the buffer"))
    ELSE Live(t.ss, b)

FStep1(s, e) ==
    CASE e.op = "protect"   -> FProtect(s, e)
      [] e.op = "unprotect" -> FUnprotect(s, e)
      [] e.op = "sizes" -> Live({s}, If(e.max # MaxRecord \/ e.np # ProtectedLen(e.n) \/ e.nu # UnprotectedLen(e.n)
                                        \/ e.npv # e.np \/ e.nuv # e.nu, {"C02"}, "advertised sizes wrong"))
      [] e.op = "none" -> Live({s}, {})
      [] OTHER -> Stop(s, {<<"C99", "unknown event">>})
FBurst(s, e) ==
    UNION {IF ~r.live \/ r.bad # {} THEN {r}
           ELSE LET x == Repeat(s, r.s, Len(e.first.recs), e.n) IN
                IF x = <<>> THEN Stop(s, {})
                ELSE IF e.dev THEN FStep1(x[1], e.last) ELSE Live({x[1]}, {})
           : r \in FStep1(s, e.first)}
FStep(s, e) == IF e.op = "burst" THEN FBurst(s, e) ELSE FStep1(s, e)
R == INSTANCE TraceRun WITH Fresh <- FFresh, Step <- FStep, CrashProps <- FCrash, Trace <- TraceData
Init == R!TInit
Next == R!TNext
=============================================================================
