--------------------------- MODULE HandshakeTrace ---------------------------
(* Traces recorded from the real HandshakeMessageHandler against Handshake.    *)
EXTENDS Handshake, TLC, Json, IOUtils
VARIABLES l, cs, viol, cnt

TraceData == ndJsonDeserialize(IOEnv.TRACE)

HFresh(e) == [ss |-> {HsInit}, bad |-> {}]
HCrash(e) == {<<"C26", e.kind>>, <<"C07", e.kind>>, <<"C08", e.kind>>, <<"C09", e.kind>>}

If(c, p, why) == IF c THEN {<<p, why>>} ELSE {}

Ok(s2, b) == [s |-> s2, bad |-> b, live |-> TRUE]
Dead(s, b) == [s |-> [s EXCEPT !.dead = TRUE], bad |-> b, live |-> TRUE]
Stop(s, b) == [s |-> s, bad |-> b, live |-> FALSE]

HFeed(s, e) ==
    LET r == Feed(s, e.in) IN
    IF s.dead THEN {Ok(s, {})}
    ELSE IF r.f.err
    THEN IF e.ok /\ ~r.f.lax THEN {Stop(s, {<<"C09", "protocol violation accepted">>})}
         ELSE {Dead(s, {})}
    ELSE IF ~e.ok
    THEN IF r.f.lax THEN {Dead(s, {})}
         ELSE {Stop(s, {<<"C07", "well-formed messages rejected">>}
                       \cup If(Ignoring(s) /\ r.f.tk, "C08", "extra ticket rejected")
                       \cup If(Ignoring(s) /\ r.f.ku, "C08", "key update rejected after ticket limit"))}
    ELSE {Ok(r.s,
             If(e.exp # InMessage(r.s), "C07", "inside-message flag wrong")
             \cup If(e.exp # InMessage(r.s), "C09", "inside-message flag wrong")
             \cup If(e.ku # r.f.ku, "C07", "key-update flag wrong")
             \cup If(e.tk # r.f.tk, "C07", "ticket flag wrong")
             \cup If(r.f.kudone /\ ~r.f.lax /\ e.kut # r.f.kut, "C07", "request flag wrong")
             \cup If(e.n # Stored(r.s), "C07", "number of stored tickets wrong")
             \cup If(e.n # Stored(r.s), "C08", "number of stored tickets wrong"))}

HGet(s, e) ==
    IF s.dead THEN {Ok(s, {})}
    ELSE IF CanGet(s)
         THEN IF e.ok THEN {Ok(Got(s), If(e.tix # s.tickets, "C08", "tickets differ"))}
              ELSE {Stop(s, {<<"C08", "tickets not handed over">>})}
         ELSE IF e.ok THEN {Stop(s, {<<"C08", "tickets handed over twice or inside a ticket">>})}
              ELSE {Ok(s, {})}

HStep(s, e) ==
    CASE e.op = "feed"     -> HFeed(s, e)
      [] e.op = "feednull" -> IF e.ok THEN {Ok(s, {<<"C09", "null plaintext accepted">>})} ELSE {Ok(s, {})}
      [] e.op = "get"      -> HGet(s, e)
      [] OTHER             -> {Stop(s, {<<"C99", "unknown event">>})}

R == INSTANCE TraceRun WITH Fresh <- HFresh, Step <- HStep, CrashProps <- HCrash, Trace <- TraceData
Init == R!TInit
Next == R!TNext
=============================================================================
