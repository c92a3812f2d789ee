---------------------------- MODULE HandshakeMC -----------------------------
(* Model of the handshake parser fed with every byte stream over Alphabet, cut *)
(* in every way into pieces, with retrieval of the tickets at every point.     *)
(* The ghost variables remember the whole stream and where it was cut; the     *)
(* invariants compare the incremental parser with a declarative reading of the *)
(* stream that knows nothing about pieces.                                     *)
EXTENDS Handshake, TLC
CONSTANTS Alphabet, MaxStream, MaxPiece
VARIABLES s,        \* parser state
          stream,   \* all bytes fed so far (of accepted pieces and the last one)
          cuts,     \* positions in stream where a piece ended
          out,      \* result flags of the last piece
          prev,     \* position where the last piece began
          handed    \* tickets handed out: <<>> or <<list>>; <<position, list>>

vars == <<s, stream, cuts, out, prev, handed>>

Pieces == UNION {[1..n -> Alphabet] : n \in 0..MaxPiece}

Init == /\ s = HsInit /\ stream = <<>> /\ cuts = {0} /\ out = NoFlags /\ prev = 0
        /\ handed = <<>>

FeedPiece(p) ==
    /\ ~s.dead
    /\ Len(stream) + Len(p) <= MaxStream
    /\ LET r == Feed(s, OfBytes(p)) IN
       /\ s' = [r.s EXCEPT !.dead = r.f.err]
       /\ out' = r.f
    /\ stream' = stream \o p
    /\ prev' = Len(stream)
    /\ cuts' = cuts \cup {Len(stream) + Len(p)}
    /\ UNCHANGED handed

GetTickets ==
    /\ ~s.dead /\ CanGet(s)
    /\ s' = Got(s)
    /\ handed' = Append(handed, <<Len(stream), s.tickets>>)
    /\ UNCHANGED <<stream, cuts, out, prev>>

Next == (\E p \in Pieces : FeedPiece(p)) \/ GetTickets
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
(* Declarative reading: the messages of a byte stream, by position.            *)
RECURSIVE MsgsFrom(_, _)
\* sequence of [from, to, typ, complete]; stops at an unknown type
MsgsFrom(b, p) ==
    IF p > Len(b) THEN <<>>
    ELSE IF b[p] \notin {TicketType, KeyUpdateType}
         THEN <<[from |-> p, to |-> p, typ |-> b[p], complete |-> FALSE]>>
    ELSE IF p + LenBytes > Len(b)
         THEN <<[from |-> p, to |-> Len(b), typ |-> b[p], complete |-> FALSE]>>
    ELSE LET n == BodyLen(SubSeq(b, p + 1, p + LenBytes), 0)
             e == p + LenBytes + n
         IN IF e > Len(b)
            THEN <<[from |-> p, to |-> Len(b), typ |-> b[p], complete |-> FALSE]>>
            ELSE <<[from |-> p, to |-> e, typ |-> b[p], complete |-> TRUE]>> \o MsgsFrom(b, e + 1)

Msgs == MsgsFrom(stream, 1)
IsBad(m) == \/ m.typ \notin {TicketType, KeyUpdateType}
            \/ m.complete /\ m.typ = KeyUpdateType /\ m.to \notin cuts
Tickets(upto) == SelectSeq(Msgs, LAMBDA m : m.complete /\ m.typ = TicketType /\ m.to <= upto)
Bytes(m) == OfBytes(SubSeq(stream, m.from, m.to))
Min2(a, b) == IF a < b THEN a ELSE b
FirstBytes(ms, n) == [i \in 1..Min2(Len(ms), n) |-> Bytes(ms[i])]
Partial == IF Msgs # <<>> /\ ~Msgs[Len(Msgs)].complete THEN {Msgs[Len(Msgs)]} ELSE {}

\* C07: the parser's state is a function of the bytes alone.
FragmentationIndependent ==
    ~s.dead => /\ InMessage(s) = (Partial # {})
               /\ \A m \in Partial : s.msg = Bytes(m) /\ s.hdr = SubSeq(stream, m.from, Min2(m.to, m.from + LenBytes))
\* C07: the flags of a piece say which messages it touched.
FlagsExact ==
    ~s.dead => LET touched == {i \in 1..Len(Msgs) : Msgs[i].to > prev} IN
               /\ out.tk = (\E i \in touched : Msgs[i].typ = TicketType)
               /\ out.ku = (\E i \in touched : Msgs[i].typ = KeyUpdateType)
               /\ out.kudone = (\E i \in touched : Msgs[i].typ = KeyUpdateType /\ Msgs[i].complete)
\* C09: an error exactly when the stream holds a violation.
RejectsExactly == s.dead = (\E i \in 1..Len(Msgs) : IsBad(Msgs[i]))
\* C08: stored and handed over tickets are the first complete ones, at most
\* MaxTickets, handed over at most once, never inside a ticket.
TicketsExact ==
    /\ Len(handed) <= 1
    /\ Len(s.tickets) <= MaxTickets
    /\ ~s.dead => IF handed = <<>>
                  THEN s.tickets = FirstBytes(Tickets(Len(stream)), MaxTickets)
                  ELSE s.tickets = <<>>
    /\ \A i \in 1..Len(handed) :
          /\ handed[i][2] = FirstBytes(Tickets(handed[i][1]), MaxTickets)
          /\ ~\E m \in {Msgs[k] : k \in 1..Len(Msgs)} :
                 m.typ = TicketType /\ m.from <= handed[i][1] /\ handed[i][1] < m.to
\* nothing dead lives on
DeadStays == [][s.dead => s'.dead]_vars
=============================================================================
