----------------------------- MODULE Handshake ------------------------------
(* The parser of post-handshake messages: NewSessionTicket (4) and KeyUpdate   *)
(* (24), received in pieces. A message is a type byte, LenBytes length bytes   *)
(* (3 in TLS) and that many body bytes. Pure functions of a state record; used *)
(* by the model (HandshakeMC), by the record layer specification (Record) and  *)
(* by the trace checker (HandshakeTrace).                                      *)
EXTENDS Runs, FiniteSets
CONSTANTS MaxTickets,   \* tickets stored at most (5 in the implementation)
          LenBytes      \* length bytes in a message header (3 in TLS)

TicketType    == 4
KeyUpdateType == 24
HdrLen        == 1 + LenBytes

\* hdr     header bytes of the message in progress (<<>>: between messages)
\* need    body bytes still to come, once the header is complete
\* msg     all bytes of the message in progress, as runs
\* tickets stored complete tickets; retrieved: handed out already
\* dead    an error was reported; nothing is promised any more
HsInit == [hdr |-> <<>>, need |-> 0, msg |-> <<>>, tickets |-> <<>>,
           retrieved |-> FALSE, dead |-> FALSE]

InMessage(s) == s.hdr # <<>>
InTicket(s)  == InMessage(s) /\ s.hdr[1] = TicketType
Ignoring(s)  == s.retrieved \/ Len(s.tickets) >= MaxTickets

RECURSIVE BodyLen(_, _)
BodyLen(h, acc) == IF h = <<>> THEN acc ELSE BodyLen(Tail(h), acc * 256 + Head(h))

Between(s) == [s EXCEPT !.hdr = <<>>, !.need = 0, !.msg = <<>>]

\* The message in progress is complete.
Finish(s) ==
    IF s.hdr[1] = TicketType /\ ~Ignoring(s)
    THEN Between([s EXCEPT !.tickets = Append(@, s.msg)])
    ELSE Between(s)

NoKut == -1
\* The request flag of a complete KeyUpdate: its first body byte.
Kut(msg) == IF RLen(msg) > HdrLen THEN Drop(msg, HdrLen)[1][1] ELSE NoKut

\* Flags accumulated over one piece. lax: the piece holds a KeyUpdate that is
\* not the well-formed one-byte message; accepting and rejecting it are both fine.
NoFlags == [ku |-> FALSE, tk |-> FALSE, kut |-> NoKut, done |-> 0, kudone |-> FALSE,
            lax |-> FALSE, err |-> FALSE]

RECURSIVE Eat(_, _, _)
AfterBytes(s, rest, f) ==
    IF Len(s.hdr) = HdrLen /\ s.need = 0
    THEN LET f2 == [f EXCEPT !.done = @ + 1] IN
         IF s.hdr[1] = KeyUpdateType
         THEN IF rest # <<>> THEN [s |-> s, f |-> [f2 EXCEPT !.err = TRUE]]
              ELSE [s |-> Finish(s),
                    f |-> [f2 EXCEPT !.kut = Kut(s.msg), !.kudone = TRUE,
                                     !.lax = @ \/ Kut(s.msg) \notin {0, 1}]]
         ELSE Eat(Finish(s), rest, f2)
    ELSE Eat(s, rest, f)

Eat(s, rs, f) ==
    IF rs = <<>> THEN [s |-> s, f |-> f]
    ELSE LET b == Head(rs)[1]  n == Head(rs)[2] IN
      IF Len(s.hdr) < HdrLen
      THEN LET h  == Append(s.hdr, b)
               nd == IF Len(h) = HdrLen THEN BodyLen(Tail(h), 0) ELSE 0
               s2 == [s EXCEPT !.hdr = h, !.need = nd, !.msg = Push(@, b, 1)]
               f2 == [f EXCEPT !.ku = @ \/ h[1] = KeyUpdateType,
                               !.tk = @ \/ h[1] = TicketType,
                               !.lax = @ \/ (h[1] = KeyUpdateType /\ Len(h) = HdrLen /\ nd # 1)]
           IN IF h[1] \notin {TicketType, KeyUpdateType}
              THEN [s |-> s2, f |-> [f2 EXCEPT !.err = TRUE]]
              ELSE AfterBytes(s2, Drop(rs, 1), f2)
      ELSE LET k  == IF n <= s.need THEN n ELSE s.need
               s2 == [s EXCEPT !.need = @ - k, !.msg = Push(@, b, k)]
               f2 == [f EXCEPT !.ku = @ \/ s.hdr[1] = KeyUpdateType,
                               !.tk = @ \/ s.hdr[1] = TicketType,
                               !.lax = @ \/ (s.hdr[1] = KeyUpdateType /\ BodyLen(Tail(s.hdr), 0) # 1)]
           IN AfterBytes(s2, Drop(rs, k), f2)

\* Feed one piece (runs): next state and flags; f.err means the piece violates
\* the protocol.
Feed(s, rs) == Eat(s, rs, NoFlags)

Stored(s) == IF s.retrieved THEN 0 ELSE Len(s.tickets)

\* Retrieval of the stored tickets.
CanGet(s) == ~s.retrieved /\ ~InTicket(s)
Got(s)    == [s EXCEPT !.retrieved = TRUE, !.tickets = <<>>]
=============================================================================
