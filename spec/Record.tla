------------------------------- MODULE Record -------------------------------
(* The TLS 1.3 record layer of one endpoint: two half connections (inbound and *)
(* outbound), the close flag, the post-handshake message parser and the hand-  *)
(* over of session tickets. Pure transition functions; RecordMC composes them  *)
(* with a peer and an adversary, RecordTrace follows the real code with them.  *)
(* Cryptography is symbolic: a record carries the key epoch and the sequence   *)
(* number it was made with.                                                    *)
EXTENDS Handshake
CONSTANTS LimbBase,     \* 65536: a 64-bit sequence number is four limbs
          MaxPlain,     \* content bytes in a record at most (16384)
          Overhead      \* header + type byte + tag (22)

TApp == 23  TAlert == 21  THs == 22
TagBytes == 16
HdrBytes == 5

\* ---- half connections --------------------------------------------------
\* ep: key generation; sq: next sequence number (most significant limb first);
\* ovf: all sequence numbers of the key were used; broken: a key update failed
Half(start) == [ep |-> 0, sq |-> start, ovf |-> FALSE, broken |-> FALSE]
Zero == <<0, 0, 0, 0>>
IsMax(q) == \A i \in 1..4 : q[i] = LimbBase - 1
Inc(q) == IF q[4] < LimbBase - 1 THEN <<q[1], q[2], q[3], q[4] + 1>>
          ELSE IF q[3] < LimbBase - 1 THEN <<q[1], q[2], q[3] + 1, 0>>
          ELSE IF q[2] < LimbBase - 1 THEN <<q[1], q[2] + 1, 0, 0>>
          ELSE IF q[1] < LimbBase - 1 THEN <<q[1] + 1, 0, 0, 0>>
          ELSE Zero
\* q + k; [c]arry out of the highest limb
Plus(q, k) == LET d == q[4] + k
                  c == q[3] + (d \div LimbBase)
                  b == q[2] + (c \div LimbBase)
                  a == q[1] + (b \div LimbBase) IN
              [q |-> <<a % LimbBase, b % LimbBase, c % LimbBase, d % LimbBase>>, c |-> a >= LimbBase]
Usable(h) == ~h.ovf /\ ~h.broken
Used(h)   == [h EXCEPT !.sq = Inc(@), !.ovf = IsMax(h.sq)]
Rekeyed(h) == [h EXCEPT !.ep = @ + 1, !.sq = Zero, !.ovf = FALSE]
Broken(h) == [h EXCEPT !.broken = TRUE]
\* whether the sequence number of a failed attempt is consumed is left open
MaybeUsed(h) == IF Usable(h) THEN {h, Used(h)} ELSE {h}

\* ---- the endpoint ------------------------------------------------------
Endpoint(is, os) == [in |-> Half(is), out |-> Half(os), closed |-> FALSE,
                     hs |-> HsInit, hsdead |-> FALSE]

HashLen(suite) == IF suite = 1 THEN 48 ELSE 32
Creatable(a) == /\ a.suite \in 0..2 /\ a.ver = 3
                /\ a.il = HashLen(a.suite) /\ a.ol = HashLen(a.suite)
                /\ a.url # "" /\ a.flags = 0

\* ---- sending -----------------------------------------------------------
SendLegal(a) == a.type # -1 /\ a.clen <= MaxPlain /\ a.cap >= a.clen + Overhead
SendOk(s, a) == SendLegal(a) /\ Usable(s.out) /\ ~a.fired
SendNext(s, a) ==
    IF SendOk(s, a) THEN {[s EXCEPT !.out = Used(@)]}
    ELSE IF SendLegal(a) THEN {[s EXCEPT !.out = h] : h \in MaybeUsed(s.out)}
    ELSE {s}
UpdateNext(s, fired) ==
    IF fired THEN {[s EXCEPT !.out = Broken(@)]} ELSE {[s EXCEPT !.out = Rekeyed(@)]}

\* ---- receiving ---------------------------------------------------------
\* r: [hdr, plen, cap, mut, re, rs, rt, clen, runs, fired, hm]
Framed(r) == /\ Len(r.hdr) = HdrBytes
             /\ r.plen + HdrBytes >= Overhead /\ r.plen + HdrBytes <= Overhead + MaxPlain
             /\ r.hdr[1] = TApp /\ r.hdr[2] = 3 /\ r.hdr[3] = 3
             /\ r.hdr[4] * 256 + r.hdr[5] = r.plen
Authentic(s, r) == /\ ~r.mut /\ Usable(s.in) /\ r.re = s.in.ep /\ r.rs = s.in.sq
                   /\ r.cap >= r.plen - TagBytes
Second(runs) == IF runs[1][2] >= 2 THEN runs[1][1] ELSE runs[2][1]

\* What happens to r in state s. k: the kind of event; nxt: possible next
\* states; must: the tickets have to be handed over now; may: they can be.
Class(s, r) ==
    IF s.closed THEN "closed"
    ELSE IF ~Framed(r) THEN "frame"
    ELSE IF ~Authentic(s, r) THEN "auth"
    ELSE IF r.fired THEN "fault"
    ELSE IF r.rt = TApp THEN IF s.hsdead THEN "appdead" ELSE IF InMessage(s.hs) THEN "appinmsg" ELSE "app"
    ELSE IF r.rt = TAlert THEN IF r.clen < 2 THEN "short" ELSE IF Second(r.runs) = 0 THEN "close" ELSE "alert"
    ELSE IF r.rt = THs THEN IF s.hsdead THEN "hsdead" ELSE "hs"
    ELSE "unknown"

Handed(h) == IF h.retrieved THEN h ELSE Got(h)
Took(s) == [s EXCEPT !.in = Used(@)]
\* a complete message ends at a KeyUpdate, which is always last
AfterHs(s, f) == LET t == Took([s EXCEPT !.hs = f.s]) IN
                 IF f.f.kudone THEN [t EXCEPT !.in = Rekeyed(@)] ELSE t
Must(s, r) == Class(s, r) = "app" /\ ~s.hs.retrieved /\ s.hs.tickets # <<>>
May(s, r)  == \/ Must(s, r)
              \/ /\ Class(s, r) = "hs" /\ ~s.hs.retrieved
                 /\ LET f == Feed(s.hs, r.runs) IN ~f.f.err /\ Len(f.s.tickets) = MaxTickets /\ CanGet(f.s)
HandsOver(s, r, f) == [f EXCEPT !.hs = Handed(@)]

RecvNext(s, r, handed) ==
    LET c == Class(s, r)
        give(t) == IF handed THEN [t EXCEPT !.hs = Handed(@)] ELSE t IN
    CASE c \in {"closed", "frame"} -> {s}
      [] c = "auth"  -> {[s EXCEPT !.in = h] : h \in MaybeUsed(s.in)}
      [] c = "fault" ->
           LET f == IF r.rt = THs /\ ~s.hsdead THEN Feed(s.hs, r.runs) ELSE Feed(HsInit, <<>>)
               ku == r.rt = THs /\ (s.hsdead \/ f.f.kudone \/ f.f.lax)
               br == [s EXCEPT !.in = Broken(@)] IN
           IF ku /\ r.hm /\ ~f.f.lax /\ ~s.hsdead THEN {br}
           ELSE {[s EXCEPT !.in = h] : h \in MaybeUsed(s.in)} \cup (IF ku THEN {br} ELSE {})
      [] c = "close" -> {[Took(s) EXCEPT !.closed = TRUE]}
      [] c = "hs" ->
           LET f == Feed(s.hs, r.runs) IN
           IF f.f.err \/ f.f.lax
           THEN LET d == [Took(s) EXCEPT !.hsdead = TRUE] IN
                IF f.f.lax THEN {d, [d EXCEPT !.in = Rekeyed(@)]} ELSE {d}
           ELSE {give(AfterHs(s, f))}
      [] c = "hsdead" -> {Took(s), [Took(s) EXCEPT !.in = Rekeyed(@)]}
      [] OTHER -> {give(Took(s))}

\* Does the call succeed: "yes", "no" or "any"; data: bytes handed to the caller
RecvOk(s, r) ==
    LET c == Class(s, r) IN
    CASE c = "app" -> "yes"
      [] c = "appdead" -> "any"
      [] c = "hs" -> LET f == Feed(s.hs, r.runs) IN
                     IF f.f.lax THEN "any" ELSE IF f.f.err THEN "no" ELSE "yes"
      [] c = "hsdead" -> "any"
      [] OTHER -> "no"
DataAllowed(s, r) == Class(s, r) \in {"app", "appdead"}

\* ---- long histories ----------------------------------------------------
\* Repeating n times a step that led from s to t and only moved one half on:
\* by m sequence numbers or to the next key. <<>>: not such a step, or the
\* sequence numbers do not suffice.
HalfRepeat(g, h, m, n) ==
    LET p == Plus(h.sq, n * m) IN
    IF h = [g EXCEPT !.sq = Plus(@, m).q] /\ ~p.c /\ ~h.ovf THEN <<[h EXCEPT !.sq = p.q]>>
    ELSE IF h = Rekeyed(g) THEN <<[h EXCEPT !.ep = @ + n]>>
    ELSE <<>>
Repeat(s, t, m, n) ==
    IF n = 0 THEN <<t>>
    ELSE IF t = [s EXCEPT !.in = t.in]
    THEN LET x == HalfRepeat(s.in, t.in, m, n) IN IF x = <<>> THEN <<>> ELSE <<[t EXCEPT !.in = x[1]]>>
    ELSE IF t = [s EXCEPT !.out = t.out]
    THEN LET x == HalfRepeat(s.out, t.out, m, n) IN IF x = <<>> THEN <<>> ELSE <<[t EXCEPT !.out = x[1]]>>
    ELSE <<>>
=============================================================================
