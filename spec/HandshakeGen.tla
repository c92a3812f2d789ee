---------------------------- MODULE HandshakeGen ----------------------------
(* Generator of test scripts: the peer sends messages of a catalogue, cut at   *)
(* every position. TLC enumerates the graph of (abstract state, operation)     *)
(* pairs and prints every edge; the runner walks all edges on the real code.   *)
EXTENDS Handshake, TLC, Json
CONSTANTS Catalogue
VARIABLES s, pend, op

Flat(ms) == ms
View == <<s.hdr, s.need, Len(s.tickets), s.retrieved, s.dead, pend>>
Init == s = HsInit /\ pend = <<>> /\ op = <<"init">>

Send(extra, k) ==
    LET total == pend \o extra IN
    /\ k \in 0..Len(total)
    /\ (extra # <<>> => k > Len(pend))
    /\ LET piece == SubSeq(total, 1, k)
           r == Feed(s, OfBytes(piece)) IN
       /\ s' = IF r.f.err THEN [HsInit EXCEPT !.dead = TRUE]
               ELSE [r.s EXCEPT !.tickets = [i \in DOMAIN @ |-> <<>>], !.msg = <<>>]
       /\ pend' = IF r.f.err THEN <<>> ELSE SubSeq(total, k + 1, Len(total))
       /\ op' = <<"feed", piece>>
Get == /\ s' = IF CanGet(s) THEN Got(s) ELSE s
       /\ op' = <<"get">>
       /\ UNCHANGED pend
Cat == {<<4,0,0,0>>, <<4,0,0,1,170>>, <<4,0,0,2,4,24>>, <<24,0,0,1,0>>, <<24,0,0,1,1>>, <<9,0,0,1,7>>}
Next == ~s.dead /\ (Get \/ \E x \in Cat \cup {<<>>}, k \in 0..12 : Send(x, k))
Edge == PrintT(ToJson([from |-> View, op |-> op', to |-> View']))
=============================================================================
