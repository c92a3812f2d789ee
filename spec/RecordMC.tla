------------------------------ MODULE RecordMC ------------------------------
(* One endpoint (Record), a peer that sends any records in any order - also    *)
(* ones that break the protocol -, an adversary who delivers, replays,         *)
(* reorders and changes them, and a crypto library that may fail.              *)
EXTENDS Record, TLC
CONSTANTS MaxSent, MaxOut, MaxErr, Start, Pieces
VARIABLES e, peer, sent, got, outs, handed, errs, accepted
vars == <<e, peer, sent, got, outs, handed, errs, accepted>>

\* what the peer can put into a record: <<type, runs>>
Contents == {<<TApp, <<>>>>} \cup {<<TAlert, <<<<2, 1>>, <<0, 1>>>>>>, <<TAlert, <<<<2, 2>>>>>>, <<7, <<>>>>}
            \cup {<<THs, p>> : p \in Pieces}
\* pieces of the handshake stream, one length byte
PiecesFull == {OfBytes(<<4, 1, 7>>), OfBytes(<<24, 1, 0>>), OfBytes(<<4>>), OfBytes(<<1, 7>>),
               OfBytes(<<24, 1>>), OfBytes(<<0>>), OfBytes(<<4, 1, 7, 24, 1, 0>>), OfBytes(<<24, 1, 0, 4>>), OfBytes(<<9>>)}
PiecesSmall == {OfBytes(<<4, 1, 7>>), OfBytes(<<24, 1, 0>>), OfBytes(<<24, 1>>), OfBytes(<<0>>)}
StartHigh == <<1, 1, 1, 0>>
StartZero == <<0, 0, 0, 0>>

Init == /\ e = Endpoint(Start, Start)
        /\ peer = [h |-> Half(Start), hs |-> HsInit, dead |-> FALSE]
        /\ sent = <<>> /\ got = <<>> /\ outs = <<>> /\ handed = <<>> /\ errs = 0 /\ accepted = 0

\* a record as the receiver sees it
Rec(i, mut, fired) ==
    LET x == sent[i] IN
    [hdr |-> <<TApp, 3, 3, 0, 17 + RLen(x.c)>>, plen |-> 17 + RLen(x.c), cap |-> 17 + RLen(x.c), mut |-> mut,
     re |-> x.e, rs |-> x.s, rt |-> x.t, clen |-> RLen(x.c), runs |-> x.c, fired |-> fired, hm |-> fired]

PeerSend(c) ==
    /\ Len(sent) < MaxSent /\ Usable(peer.h)
    /\ sent' = Append(sent, [e |-> peer.h.ep, s |-> peer.h.sq, t |-> c[1], c |-> c[2],
                             inmsg |-> InMessage(peer.hs) \/ peer.dead, ku |-> peer.h.ep])
    /\ LET f == Feed(peer.hs, c[2])
           h == Used(peer.h)
           r == IF c[1] = THs /\ ~peer.dead
                THEN [h |-> IF f.f.kudone /\ ~f.f.err THEN Rekeyed(h) ELSE h, hs |-> f.s, dead |-> f.f.err \/ f.f.lax]
                ELSE [h |-> h, hs |-> peer.hs, dead |-> peer.dead]
       IN peer' = r
    /\ UNCHANGED <<e, got, outs, handed, errs, accepted>>

Deliver(i, mut, fired) ==
    LET r == Rec(i, mut, fired)
        ok == RecvOk(e, r) = "yes"
        any == RecvOk(e, r) = "any" IN
    /\ \E give \in (IF Must(e, r) THEN {TRUE} ELSE IF May(e, r) THEN BOOLEAN ELSE {FALSE}) :
         \E n \in RecvNext(e, r, give) :
           /\ e' = n
           /\ handed' = IF give THEN Append(handed, (IF Class(e, r) = "hs" THEN Feed(e.hs, r.runs).s ELSE e.hs).tickets) ELSE handed
    /\ got' = IF DataAllowed(e, r) /\ (ok \/ any) THEN Append(got, i) ELSE got
    /\ (ok \/ errs < MaxErr)
    /\ errs' = (IF ok THEN errs ELSE errs + 1)
    /\ accepted' = IF ok \/ any THEN i ELSE accepted
    /\ UNCHANGED <<peer, sent, outs>>

SendOut(fired) ==
    LET a == [type |-> TApp, clen |-> 0, cap |-> Overhead, fired |-> fired] IN
    /\ Len(outs) < MaxOut
    /\ outs' = IF SendOk(e, a) THEN Append(outs, <<e.out.ep, e.out.sq>>) ELSE outs
    /\ e' \in SendNext(e, a)
    /\ UNCHANGED <<peer, sent, got, handed, errs, accepted>>
UpdateOut(fired) ==
    /\ MaxOut > 0 /\ ~e.out.broken /\ e.out.ep < 2
    /\ e' \in UpdateNext(e, fired)
    /\ UNCHANGED <<peer, sent, got, outs, handed, errs, accepted>>

Next == \/ \E c \in Contents : PeerSend(c)
        \/ \E i \in 1..Len(sent), m, f \in BOOLEAN : Deliver(i, m, f)
        \/ \E f \in BOOLEAN : SendOut(f) \/ UpdateOut(f)
Spec == Init /\ [][Next]_vars

Increasing(q) == \A i, k \in 1..Len(q) : i < k => q[i] < q[k]
\* C04, C01: data comes in order, at most once, only data the peer sent as such
InOrderOnce == Increasing(got) /\ \A i \in 1..Len(got) : sent[got[i]].t = TApp
\* C01: as long as no error was reported nothing is missing
Apps(n) == {k \in 1..n : sent[k].t = TApp}
NothingLost == errs = 0 => {got[i] : i \in 1..Len(got)} = Apps(accepted)
\* C03
NonceUnique == \A i, k \in 1..Len(outs) : i # k => outs[i] # outs[k]
\* C05: the inbound generation is the one the next record of the peer has
Epochs == /\ errs = 0 /\ accepted < Len(sent) => e.in.ep = sent[accepted + 1].e
          /\ errs = 0 /\ accepted = Len(sent) => e.in.ep = peer.h.ep
\* C09: no data out of the middle of a message
NotInMessage == ~peer.dead /\ errs = 0 => \A i \in 1..Len(got) : ~sent[got[i]].inmsg
\* C08
Tix(n) == LET RECURSIVE F(_, _)
              F(k, h) == IF k > n THEN h ELSE F(k + 1, IF sent[k].t = THs THEN Feed(h, sent[k].c).s ELSE h)
          IN F(1, HsInit).tickets
IsPrefix(a, b) == Len(a) <= Len(b) /\ SubSeq(b, 1, Len(a)) = a
HandedOnce == Len(handed) <= 1 /\ (handed # <<>> => handed[1] # <<>> /\ Len(handed[1]) <= MaxTickets)
HandedExact == errs = 0 /\ handed # <<>> => IsPrefix(handed[1], Tix(accepted))
NotKept == errs = 0 /\ got # <<>> => (Tix(got[Len(got)]) # <<>> => handed # <<>>)
\* C06, C25
CloseFinal == [][e.closed => got' = got /\ e'.closed /\ handed' = handed]_vars
BrokenStays == [][(e.in.broken => e'.in.broken /\ got' = got) /\ (e.out.broken => e'.out.broken /\ outs' = outs)]_vars
OutAlone == [][e'.out # e.out => e'.in = e.in]_vars
=============================================================================
