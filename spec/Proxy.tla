-------------------------------- MODULE Proxy --------------------------------
(* S2AProxy: the client side of the conversation with the S2A. One value of    *)
(* the state per proxy; messages to the S2A and responses of the S2A are       *)
(* records. Identities are opaque values; None stands for "no identity".       *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS None,          \* the empty identity
          Tok(_),        \* the token issued for an identity
          DefTok         \* the token issued for no identity

Versions == {0, 1}       \* TLS 1.2, TLS 1.3
Suites == {0, 1, 2}
HashLen(su) == IF su = 1 THEN 48 ELSE 32

Proxy(client, locals, tm, addr) ==
    [client |-> client, locals |-> locals, tm |-> tm, addr |-> addr,
     first |-> TRUE, sel |-> <<>>, cache |-> {}, fin |-> FALSE, res |-> <<>>]

\* --- tokens ---------------------------------------------------------------
\* What the token source can give: src = [avail |-> set of identities, def |-> BOOLEAN]
Locals(s, src) == {<<i, Tok(i)>> : i \in s.locals \cap src.avail}
Default(s, src) == IF s.locals = {} /\ src.def THEN {<<None, DefTok>>} ELSE {}
\* a later token for the same identity takes the place of the earlier one
Merge(old, new) == {p \in old : \A q \in new : q[1] # p[1]} \cup new
Everything(s, src) == Merge(Merge(Locals(s, src), s.cache), Default(s, src))
\* the possible sets of tokens for the next message; a message after the start
\* may carry what the start carried or what can be had now
Tokens(s, src) ==
    IF ~s.tm THEN {{}}
    ELSE IF s.sel # <<>> /\ {p[1] : p \in s.cache} = {s.sel[1]} THEN {s.cache}
    ELSE IF s.sel # <<>> /\ s.sel[1] \in src.avail THEN {{<<s.sel[1], Tok(s.sel[1])>>}}
    ELSE {Everything(s, src)} \cup (IF s.first THEN {} ELSE {s.cache})

\* --- messages to the S2A ---------------------------------------------------
\* whether the configuration can be put into a start message
Expressible(s, cfg) == /\ cfg.min \in Versions /\ cfg.max \in Versions
                       /\ \A i \in 1..Len(cfg.suites) : cfg.suites[i] \in Suites
                       /\ s.client => Cardinality(s.locals) <= 1
\* the kind of message a call with n bytes from the peer gives, "no" if refused
Kind(s, cfg, n) ==
    IF s.first THEN IF ~Expressible(s, cfg) \/ (s.client /\ n > 0) THEN "no"
                    ELSE IF s.client THEN "client" ELSE "server"
    ELSE IF n = 0 THEN "no" ELSE "next"
AfterMessage(s, toks) == [s EXCEPT !.first = FALSE, !.cache = toks]

\* --- responses of the S2A --------------------------------------------------
\* r = [bad, hasst, okst, haslid, lid, hasres, hasstate, hasrlid, ver, su, ...]
ValidResult(r) == r.hasstate /\ r.hasrlid /\ r.ver \in Versions /\ r.su \in Suites
Mismatch(r) == r.hasres /\ r.haslid /\ r.hasrlid /\ r.lid # r.rlid
Acceptable(r) == ~r.bad /\ r.hasst /\ r.okst /\ (r.hasres => ValidResult(r))
Select(s, r) == IF r.haslid THEN [s EXCEPT !.sel = <<r.lid>>] ELSE s
Finish(s, r, content) == [s EXCEPT !.fin = TRUE, !.res = <<content>>]
\* the states after a response; content is what the session result says.
\* A result after the first may or may not take its place.
AfterResponse(s, r, content) ==
    IF r.bad \/ ~r.hasst \/ ~r.okst THEN {s}
    ELSE IF ~r.hasres THEN {Select(s, r)}
    ELSE IF ~ValidResult(r) THEN {s, Select(s, r)}
    ELSE IF ~s.fin THEN {Finish(Select(s, r), r, content)}
    ELSE {Select(s, r), Finish(Select(s, r), r, content)}

\* --- the finished session --------------------------------------------------
Protectable(s) == s.fin /\ s.addr /\ LET c == s.res[1] IN c.ver = 1 /\ c.ikl = HashLen(c.su) /\ c.okl = HashLen(c.su)
=============================================================================
