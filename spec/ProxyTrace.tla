----------------------------- MODULE ProxyTrace -----------------------------
(* Traces recorded from the real S2AProxy against Proxy.                       *)
EXTENDS TLC, Json, IOUtils, Integers, Sequences, FiniteSets
VARIABLES l, cs, viol, cnt
TraceData == ndJsonDeserialize(IOEnv.TRACE)
TTok(i) == "t~" \o i
INSTANCE Proxy WITH None <- "n:", Tok <- TTok, DefTok <- "t~default"
If(c, ps, why) == IF c THEN {<<p, why>> : p \in ps} ELSE {}
Live(ss, b) == {[s |-> x, bad |-> b, live |-> TRUE] : x \in ss}
Stop(s, b) == {[s |-> s, bad |-> b, live |-> FALSE]}
Range(q) == {q[i] : i \in 1..Len(q)}
Go(s, ss, b) == IF b = {} THEN Live(ss, b) ELSE Stop(s, b)

PFresh(e) ==
    LET good == e.flags = 0
        cfg == [app |-> e.app, target |-> e.target, min |-> e.min, max |-> e.max, suites |-> e.suites, tgts |-> Range(e.tgts), url |-> e.url]
        p == Proxy(e.role = "c", Range(e.locs), e.tm, e.addr) IN
    [ss |-> IF e.ok /\ good THEN {[p |-> p, cfg |-> cfg, src |-> [avail |-> Range(e.avail), def |-> e.def]]} ELSE {},
     bad |-> If(good /\ ~e.ok, {"C16", "C17"}, "proxy with good parameters refused")
             \cup If(~good /\ e.ok, {"C26"}, "proxy without logger or options created")]
PCrash(e) == {<<p, e.kind>> : p \in {"C16", "C17", "C18", "C19", "C26"}}

Fin(s, e) == If(e.fin # s.p.fin, {"C16"}, "finished flag wrong")

\* --- message to the S2A
Same(seq, set) == Range(seq) = set /\ Len(seq) = Cardinality(set)
StartOk(s, e, k) ==
    If(e.apps # <<s.cfg.app>> , {"C17"}, "application protocol wrong")
    \cup If(e.min # s.cfg.min \/ e.max # s.cfg.max, {"C17"}, "TLS version range wrong")
    \cup If(e.suites # s.cfg.suites, {"C17"}, "ciphersuites wrong")
    \cup If(~Same(e.locs, s.p.locals), {"C17"}, "local identities wrong")
    \cup If(k = "client" /\ ~Same(e.tgts, s.cfg.tgts), {"C17"}, "target identities wrong")
    \cup If(k = "client" /\ e.tname # s.cfg.target, {"C17"}, "target name wrong")
    \cup If(k = "server" /\ (e.blen # e.ilen \/ e.bdig # e.idig), {"C17"}, "bytes from the peer changed")
Auth(e) == {<<e.auth[i], e.atok[i]>> : i \in 1..Len(e.auth)}
S2A(s, e) ==
    LET k == Kind(s.p, s.cfg, e.ilen) IN
    IF k = "no"
    THEN Go(s, {s}, Fin(s, e) \cup If(e.ok, {"C17"}, "message made that has to be refused"))
    ELSE IF ~e.ok THEN Stop(s, If(TRUE, IF s.p.tm THEN {"C17", "C18"} ELSE {"C17"}, "legal call refused"))
    ELSE LET a == Auth(e)
             dup == Len(e.auth) # Cardinality(a)
             poss == {[s EXCEPT !.p = AfterMessage(@, t)] : t \in {x \in Tokens(s.p, s.src) : x = a}}
             mixed == \E x \in a : x # <<"n:", "t~default">> /\ x[2] # TTok(x[1]) IN
         Go(s, poss, Fin(s, e)
              \cup If(~e.wf \/ e.kinds # <<k>>, {"C17"}, "not one well-formed message of the right kind")
              \cup If(k # "next" /\ e.kinds = <<k>>, IF StartOk(s, e, k) = {} THEN {} ELSE {"C17"}, IF StartOk(s, e, k) = {} THEN "" ELSE (CHOOSE x \in StartOk(s, e, k) : TRUE)[2])
              \cup If(k = "next" /\ (e.blen # e.ilen \/ e.bdig # e.idig), {"C17"}, "bytes from the peer changed")
              \cup If(mixed, {"C18"}, "token with an identity it was not issued for")
              \cup If(~mixed /\ (dup \/ poss = {}), {"C18"}, "wrong set of tokens"))

\* --- response of the S2A
Content(e) == [ver |-> e.ver, su |-> e.su, isq |-> e.isq, osq |-> e.osq, ik |-> e.ik, ok |-> e.ok_, ikl |-> e.ikl, okl |-> e.okl, cid |-> e.cid,
               app |-> e.app, pid |-> e.pid, rlid |-> e.rlid, pfp |-> e.pfp, lfp |-> e.lfp, rsm |-> e.rsm]
Resp(e) == [bad |-> e.bad, hasst |-> e.hasst, okst |-> e.code = "0", haslid |-> e.haslid, lid |-> e.lid, hasres |-> e.hasres,
            hasstate |-> e.hasstate, hasrlid |-> e.hasrlid, rlid |-> e.rlid, ver |-> e.ver, su |-> e.su]
Peer(s, e) ==
    LET r == Resp(e)
        acc == Acceptable(r)
        post == {[s EXCEPT !.p = x] : x \in AfterResponse(s.p, r, Content(e))}
        must == If(acc /\ ~e.rok /\ ~Mismatch(r), {"C16", "C17"} \cup (IF r.hasres THEN {"C19"} ELSE {}) \cup (IF s.p.tm /\ r.haslid THEN {"C18"} ELSE {}), "good response refused")
                \cup If(~acc /\ e.rok, {"C16"}, "bad response accepted")
                \cup If(acc /\ e.rok /\ e.fin # (s.p.fin \/ r.hasres), {"C16"}, "finished flag wrong")
                \cup If(~acc /\ e.fin # s.p.fin, {"C16"}, "finished by a bad response")
                \cup If(e.was # s.p.fin, {"C16"}, "finished flag changed between calls")
                \cup If(acc /\ e.rok /\ (e.nobuf \/ e.blen # e.flen \/ e.bdig # e.fdig), {"C17"}, "frames for the peer changed")
                \cup If(acc /\ e.rok /\ e.rbc # e.bc, {"C17"}, "consumed bytes changed")
        soft == If(acc /\ e.rok /\ Mismatch(r), {"C16"}, "local identity of response and result differ but accepted")
                \cup If(~r.bad /\ r.hasst /\ ~r.okst /\ e.flen > 0 /\ (e.blen # e.flen \/ e.bdig # e.fdig), {"C17"}, "frames of a failed handshake dropped") IN
    IF e.amb THEN Stop(s, If(~e.rok /\ e.fin # e.was, {"C16"}, "finished by a bad response"))
    ELSE IF must # {} THEN Stop(s, must \cup soft)
    ELSE IF Mismatch(r) /\ acc /\ ~e.rok
         THEN Live({s, [s EXCEPT !.p = Select(@, r)]}, IF e.fin # s.p.fin THEN If(TRUE, {"C16"}, "finished by a bad response") ELSE {})
    ELSE Live(post, soft)

\* --- the finished session
Fp(s, e) ==
    LET want == Protectable(s.p) IN
    IF ~want THEN Go(s, {s}, Fin(s, e) \cup If(e.ok /\ ~s.p.fin, {"C16"}, "frame protector before the end of the handshake")
                                       \cup If(e.ok /\ s.p.fin, {"C19"}, "frame protector for an unsupported session"))
    ELSE IF ~e.ok THEN Stop(s, Fin(s, e) \cup If(TRUE, {"C16", "C19"}, "no frame protector after the handshake"))
    ELSE LET c == s.p.res[1] IN
         Go(s, {s}, Fin(s, e)
             \cup If(~e.found \/ ~e.roundok, {"C19"}, "frame protector does not use the negotiated session")
             \cup If(e.found /\ e.outf # <<c.su, c.ok, c.osq>>, {"C19"}, "outbound parameters differ from the session result")
             \cup If(~\E i \in 1..Len(e.inf) : e.inf[i] = <<c.su, c.ik, c.isq>>, {"C19"}, "inbound parameters differ from the session result")
             \cup If(\E i \in 1..Len(e.inf) : e.inf[i] # <<c.su, c.ik, c.isq>>, {"C19"}, "inbound parameters of another result"))
Tickets(s, e) ==
    LET c == s.p.res[1] IN
    Go(s, {s}, Fin(s, e)
         \cup If(e.called /\ s.p.fin /\ (e.cid # c.cid \/ e.id # c.rlid \/ e.url # s.cfg.url \/ e.tk # <<"04000003070809">>), {"C19", "C08"}, "ticket handed over with the wrong connection, identity, address or content"))
Ctx(s, e) ==
    IF ~s.p.fin THEN Go(s, {s}, Fin(s, e) \cup If(e.ok, {"C16"}, "context before the end of the handshake"))
    ELSE IF ~e.ok THEN Stop(s, Fin(s, e) \cup If(TRUE, {"C16", "C19"}, "no context after the handshake"))
    ELSE LET c == s.p.res[1] IN
         Go(s, {s}, Fin(s, e) \cup If(<<e.app, e.ver, e.su, e.pid, e.rlid, e.pfp, e.lfp, e.rsm>> # <<c.app, c.ver, c.su, c.pid, c.rlid, c.pfp, c.lfp, c.rsm>>,
                                      {"C19"}, "context differs from the session result"))

PStep(s, e) ==
    CASE e.op = "s2a" -> S2A(s, e)
      [] e.op = "peer" -> Peer(s, e)
      [] e.op = "peernone" -> Go(s, {s}, Fin(s, e) \cup If(e.ok, {"C16"}, "empty response accepted"))
      [] e.op = "avail" -> Live({[s EXCEPT !.src = [avail |-> Range(e.avail), def |-> e.def]]}, {})
      [] e.op = "fp" -> Fp(s, e)
      [] e.op = "tickets" -> Tickets(s, e)
      [] e.op = "ctx" -> Ctx(s, e)
      [] e.op = "none" -> Live({s}, {})
      [] OTHER -> Stop(s, {<<"C99", "unknown event">>})
R == INSTANCE TraceRun WITH Fresh <- PFresh, Step <- PStep, CrashProps <- PCrash, Trace <- TraceData
Init == R!TInit
Next == R!TNext
=============================================================================
