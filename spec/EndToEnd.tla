------------------------------ MODULE EndToEnd ------------------------------
(* The whole: a client and a server application, each with its own proxy and   *)
(* its own S2A, a handshake of three flights (CH, SF, CF) relayed through the  *)
(* proxies, session tickets from the server's S2A, two frame protectors, and a *)
(* network between. Composed of Proxy (the conversation with the S2A) and      *)
(* Frame (on Record, on Handshake); here are the S2As and the network.         *)
EXTENDS Frame
CONSTANTS LCH, LSF, LCF,      \* bytes in the flights
          NoId, DefC, DefS    \* no identity; the S2As' defaults
PTok(i) == i
P == INSTANCE Proxy WITH None <- NoId, Tok <- PTok, DefTok <- NoId

Other(x) == IF x = "c" THEN "s" ELSE "c"
Least(a, b) == IF a < b THEN a ELSE b
Elems(q) == {q[i] : i \in 1..Len(q)}

\* cfg: [cs, ss: ciphersuites, cid, sids, tgts: identities, tix: tickets, lazy,
\*       cq, sq: first sequence number of client and server, fl: flights so many times as long]
NewSide(cfg, x) ==
    [p |-> P!Proxy(x = "c", IF x = "c" THEN {cfg.cid} \ {NoId} ELSE Elems(cfg.sids), FALSE, TRUE),
     in |-> 0,             \* bytes its S2A took
     hb |-> 0,             \* handshake bytes on the way to it
     recs |-> <<>>,        \* records on the way to it
     ep |-> <<>>,          \* its frame protector
     gone |-> FALSE,       \* the proxy is destroyed
     failed |-> FALSE,     \* its S2A refused
     spoiled |-> FALSE,    \* the next handshake bytes are altered
     broken |-> FALSE,     \* something other than authentic records in order arrived
     sent |-> 0, got |-> 0, handed |-> FALSE]
NewSession(cfg) == [cfg |-> cfg, c |-> NewSide(cfg, "c"), s |-> NewSide(cfg, "s")]

\* ---- what the S2As agree on --------------------------------------------
RECURSIVE First(_, _)
First(q, S) == IF q = <<>> THEN -1 ELSE IF Head(q) \in S THEN Head(q) ELSE First(Tail(q), S)
Suite(cfg) == First(cfg.cs, Elems(cfg.ss))
ClientId(cfg) == IF cfg.cid = NoId THEN DefC ELSE cfg.cid
ServerId(cfg) == IF cfg.sids = <<>> THEN DefS ELSE CHOOSE m \in Elems(cfg.sids) : \A n \in Elems(cfg.sids) : m <= n
Trusted(cfg) == cfg.tgts = <<>> \/ ServerId(cfg) \in Elems(cfg.tgts)
Config(cfg, x) == [min |-> 1, max |-> 1, suites |-> IF x = "c" THEN cfg.cs ELSE cfg.ss]

\* ---- handshake ---------------------------------------------------------
\* Bytes an application can offer: all that is on the way.
RECURSIVE Wire(_)
Wire(rs) == IF rs = <<>> THEN 0 ELSE Head(rs).plen + HdrBytes + Wire(Tail(rs))
Available(sd) == sd.hb + Wire(sd.recs)
NCH(S) == LCH * S.cfg.fl
NSF(S) == LSF * S.cfg.fl
NCF(S) == LCF * S.cfg.fl
Goal(S, x, in) == IF x = "c" THEN NSF(S) ELSE IF in < NCH(S) THEN NCH(S) ELSE NCH(S) + NCF(S)
\* The S2A of x, which has taken sd.in bytes, gets n more (start: first message)
Eaten(S, x, n, start) ==
    LET room == Goal(S, x, S[x].in) - S[x].in IN
    IF x = "c" /\ start THEN 0 ELSE IF S.cfg.lazy /\ n < room THEN 0 ELSE Least(n, room)
Ticket(cfg, i, j) == [own |-> <<i, "s">>, hdr |-> <<TApp, 3, 3, 0, 24 + 17>>, plen |-> 24 + 17, cap |-> 24 + 17, mut |-> FALSE, re |-> 0, rs |-> Plus(cfg.sq, j - 1).q,
                 rt |-> THs, clen |-> 24, runs |-> <<<<4, 1>>, <<0, 2>>, <<20, 1>>, <<100 + j, 10>>, <<50 + i, 10>>>>, fired |-> FALSE, hm |-> FALSE, from |-> 0]
Tickets(cfg, i) == [j \in 1..cfg.tix |-> Ticket(cfg, i, j)]
React(S, x, i, n, start) ==
    LET e == Eaten(S, x, n, start)
        in == S[x].in + e
        hit(g) == e > 0 /\ in = g
        spoil == S[x].spoiled /\ e > 0
        err == \/ spoil \/ e > S[x].hb   \* not the bytes of a flight
               \/ x = "c" /\ hit(NSF(S)) /\ ~Trusted(S.cfg)
               \/ x = "s" /\ hit(NCH(S)) /\ Suite(S.cfg) = -1
        res == ~err /\ ((x = "c" /\ hit(NSF(S))) \/ (x = "s" /\ hit(NCH(S) + NCF(S))))
        hs == IF err THEN 0 ELSE IF x = "c" THEN (IF start THEN NCH(S) ELSE IF hit(NSF(S)) THEN NCF(S) ELSE 0) ELSE IF hit(NCH(S)) THEN NSF(S) ELSE 0
    IN [eaten |-> e, in |-> in, err |-> err, spoil |-> spoil, res |-> res, out |-> hs,
        recs |-> IF res /\ x = "s" THEN Tickets(S.cfg, i) ELSE <<>>,
        lid |-> ~err /\ (res \/ (x = "s" /\ hit(NCH(S))))]
Local(cfg, x) == IF x = "c" THEN ClientId(cfg) ELSE ServerId(cfg)
Response(S, x, a) ==
    [bad |-> FALSE, hasst |-> TRUE, okst |-> ~a.err, haslid |-> a.lid, lid |-> Local(S.cfg, x), hasres |-> a.res, hasstate |-> TRUE, hasrlid |-> TRUE,
     rlid |-> Local(S.cfg, x), ver |-> 1, su |-> Suite(S.cfg)]
Content(S, x) ==
    LET su == Suite(S.cfg) IN
    [ver |-> 1, su |-> su, ikl |-> P!HashLen(su), okl |-> P!HashLen(su), is |-> IF x = "c" THEN S.cfg.sq ELSE S.cfg.cq, os |-> IF x = "c" THEN S.cfg.cq ELSE Plus(S.cfg.sq, S.cfg.tix).q,
     lid |-> Local(S.cfg, x), pid |-> Local(S.cfg, Other(x))]
HsKind(S, x, n) == P!Kind(S[x].p, Config(S.cfg, x), n)
HsAfter(S, x, i, n) ==
    LET k == HsKind(S, x, n)
        a == React(S, x, i, n, k # "next")
        p1 == P!AfterMessage(S[x].p, {})
        p2 == CHOOSE q \in P!AfterResponse(p1, Response(S, x, a), Content(S, x)) : TRUE
        y == Other(x) IN
    [S EXCEPT ![x].p = p2, ![x].in = a.in, ![x].hb = @ - (IF a.err THEN 0 ELSE a.eaten), ![x].failed = @ \/ a.err,
              ![x].spoiled = @ /\ ~a.spoil, ![y].hb = @ + a.out, ![y].recs = @ \o a.recs]

\* ---- the session -------------------------------------------------------
Open(S, x) == [S EXCEPT ![x].ep = <<Endpoint(S[x].p.res[1].is, S[x].p.res[1].os)>>]
Data(i, x, sq, n, from) ==
    [own |-> <<i, x>>, hdr |-> <<TApp, 3, 3, (n + 17) \div 256, (n + 17) % 256>>, plen |-> n + 17, cap |-> n + 17, mut |-> FALSE, re |-> 0, rs |-> sq,
     rt |-> TApp, clen |-> n, runs |-> <<>>, fired |-> FALSE, hm |-> FALSE, from |-> from]
Lens(n) == [k \in 1..RecordsFor(n) |-> RecordLen(n, k)]
Send(S, x, i, n) ==
    LET o == S[x].ep[1].out
        m == RecordsFor(n)
        rs == [k \in 1..m |-> Data(i, x, OutAfter(o, k - 1).sq, RecordLen(n, k), S[x].sent + (k - 1) * MaxPlain)] IN
    [S EXCEPT ![x].ep = <<[@[1] EXCEPT !.out = OutAfter(@, m)]>>, ![x].sent = @ + n, ![Other(x)].recs = @ \o rs]
\* a record that was not made for x of session i, in its place, is not authentic
Seen(r, i, x) == [r EXCEPT !.mut = @ \/ r.own # <<i, Other(x)>>]
RECURSIVE Sum(_)
Sum(rs) == IF rs = <<>> THEN 0 ELSE (IF Head(rs).rt = TApp THEN Head(rs).clen ELSE 0) + Sum(Tail(rs))
Take(S, x, i, k) == TakeAll(S[x].ep[1], [n \in 1..k |-> Seen(S[x].recs[n], i, x)])
RecvOkay(S, x, i, k) == Take(S, x, i, k).res = "yes"
HasData(S, x, k) == \E n \in 1..k : S[x].recs[n].rt = TApp
Recv(S, x, i, k) ==
    LET t == Take(S, x, i, k)
        ok == t.res = "yes"
        rs == SubSeq(S[x].recs, 1, k)
        rest == SubSeq(S[x].recs, k + 1, Len(S[x].recs)) IN
    IF ok THEN [S EXCEPT ![x].ep = <<CHOOSE q \in t.ss : TRUE>>, ![x].got = @ + Sum(rs), ![x].recs = rest]
    ELSE [S EXCEPT ![x].broken = TRUE, ![x].recs = rest]

\* ---- the network -------------------------------------------------------
Without(q, r) == SubSeq(q, 1, r - 1) \o SubSeq(q, r + 1, Len(q))
With(q, r, e) == SubSeq(q, 1, r - 1) \o <<e>> \o SubSeq(q, r, Len(q))
Flip(S, x, r) == [S EXCEPT ![x].recs[r].mut = TRUE]
Dup(S, x, r) == [S EXCEPT ![x].recs = With(@, r, @[r])]
Del(S, x, r) == [S EXCEPT ![x].recs = Without(@, r)]
Swap(S, x, r) == [S EXCEPT ![x].recs[r] = S[x].recs[r + 1], ![x].recs[r + 1] = S[x].recs[r]]
Insert(S, x, e) == [S EXCEPT ![x].recs = <<e>> \o @]
=============================================================================
