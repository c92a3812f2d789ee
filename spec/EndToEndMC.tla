----------------------------- MODULE EndToEndMC -----------------------------
(* EndToEnd with small flights, records and histories: every cut of the byte   *)
(* streams, every order of the steps of the two ends (and of other sessions),  *)
(* a network with a budget of interferences.                                   *)
EXTENDS EndToEnd, TLC
CONSTANTS Cfgs,     \* configurations of the sessions: a set of sequences of them
          Budget,   \* interferences of the network
          Sends,    \* messages an end sends at most
          Sizes     \* of the messages
MinusOne == -1
VARIABLES ss, left, told, clean
vars == <<ss, left, told, clean>>
Cfg(cs, sv, cid, sids, tgts, tix, lazy) == [cs |-> cs, ss |-> sv, cid |-> cid, sids |-> sids, tgts |-> tgts, tix |-> tix, lazy |-> lazy, cq |-> Zero, sq |-> <<0, 0, 0, LimbBase - 1>>, fl |-> 1]
One == {<<Cfg(cs, sv, 0, <<1>>, tg, tix, lazy)>> : cs \in {<<0, 1>>, <<2>>}, sv \in {<<1, 2>>}, tg \in {<<>>, <<1>>, <<2>>}, tix \in {0, 2}, lazy \in BOOLEAN}
OneQuick == {<<Cfg(<<0, 1>>, <<1, 2>>, 0, <<1>>, tg, tix, lazy)>> : tg \in {<<1>>, <<2>>}, tix \in {0, 2}, lazy \in BOOLEAN}
OneGood == {<<Cfg(<<0, 1>>, <<1, 2>>, cid, sids, <<>>, tix, lazy)>> : cid \in {-1, 0}, sids \in {<<>>, <<5, 1>>}, tix \in {0, 1, 6}, lazy \in BOOLEAN}
OneEvil == {<<Cfg(<<1>>, <<1>>, 0, <<1>>, <<>>, tix, TRUE)>> : tix \in {0, 1}}
Two == {<<Cfg(<<0>>, <<0>>, 0, <<1>>, <<>>, t, TRUE), Cfg(<<0>>, <<0>>, 0, <<1>>, <<>>, 0, TRUE)>> : t \in {0, 1}}
I == DOMAIN ss
X == {"c", "s"}

Init == /\ \E q \in Cfgs : ss = [i \in 1..Len(q) |-> NewSession(q[i])]
        /\ left = Budget
        /\ told = [i \in I |-> [x \in X |-> 0]]
        /\ clean = [i \in I |-> [x \in X |-> TRUE]]
Running(i, x) == LET S == ss[i] IN ~S[x].gone /\ ~S[x].failed /\ ~S[x].p.fin /\ ~S[Other(x)].failed
Offer(i, x, n) ==
    /\ Running(i, x) /\ n <= Available(ss[i][x]) /\ HsKind(ss[i], x, n) # "no"
    /\ ss' = [ss EXCEPT ![i] = HsAfter(@, x, i, n)] /\ UNCHANGED <<left, told, clean>>
\* offering nothing new changes nothing after the first message
Hs(i, x) == \E n \in 0..3 \cup {Available(ss[i][x])} : Offer(i, x, n)
Fp(i, x) ==
    /\ ~ss[i][x].gone /\ ss[i][x].ep = <<>> /\ P!Protectable(ss[i][x].p)
    /\ ss' = [ss EXCEPT ![i] = Open(@, x)] /\ UNCHANGED <<left, told, clean>>
DropProxy(i, x) ==
    /\ ss[i][x].ep # <<>> /\ ~ss[i][x].gone
    /\ ss' = [ss EXCEPT ![i][x].gone = TRUE] /\ UNCHANGED <<left, told, clean>>
Say(i, x, n) ==
    /\ ss[i][x].ep # <<>> /\ told[i][x] < Sends
    /\ ss' = [ss EXCEPT ![i] = Send(@, x, i, n)]
    /\ told' = [told EXCEPT ![i][x] = @ + 1] /\ UNCHANGED <<left, clean>>
\* the data of accepted records: made by the other end, following each other
RECURSIVE Follows(_, _, _)
Follows(rs, at, own) ==
    IF rs = <<>> THEN TRUE
    ELSE LET r == Head(rs) IN
         IF r.rt # TApp THEN r.own = own /\ Follows(Tail(rs), at, own)
         ELSE r.own = own /\ ~r.mut /\ r.from = at /\ Follows(Tail(rs), at + r.clen, own)
CanRead(i, x) == ss[i][x].ep # <<>> /\ ~ss[i][x].broken /\ ss[i][x].hb = 0
Hear(i, x, k) ==
    /\ CanRead(i, x) /\ k <= Len(ss[i][x].recs)
    /\ LET S == ss[i] IN
       /\ clean' = [clean EXCEPT ![i][x] = @ /\ (RecvOkay(S, x, i, k) => Follows(SubSeq(S[x].recs, 1, k), S[x].got, <<i, Other(x)>>))]
       /\ ss' = [ss EXCEPT ![i] = Recv(S, x, i, k)]
    /\ UNCHANGED <<left, told>>
\* the network does act to the record r on the way to x of session i (from: a
\* copy of the record r on the way to x of session j goes first)
Net(act, i, x, r, j) ==
    /\ left > 0 /\ left' = left - 1 /\ UNCHANGED <<told, clean>>
    /\ LET S == ss[i] q == S[x].recs IN
       CASE act = "flip" -> r \in DOMAIN q /\ ~q[r].mut /\ ss' = [ss EXCEPT ![i] = Flip(S, x, r)]
         [] act = "dup" -> r \in DOMAIN q /\ ss' = [ss EXCEPT ![i] = Dup(S, x, r)]
         [] act = "del" -> r \in DOMAIN q /\ ss' = [ss EXCEPT ![i] = Del(S, x, r)]
         [] act = "swap" -> r < Len(q) /\ ss' = [ss EXCEPT ![i] = Swap(S, x, r)]
         [] act = "from" -> j # i /\ r \in DOMAIN ss[j][x].recs /\ ss' = [ss EXCEPT ![i] = Insert(S, x, ss[j][x].recs[r])]
         [] act = "reflect" -> r \in DOMAIN S[Other(x)].recs /\ ss' = [ss EXCEPT ![i] = Insert(S, x, S[Other(x)].recs[r])]
Spoil(i, x) ==
    /\ left > 0 /\ left' = left - 1 /\ UNCHANGED <<told, clean>>
    /\ ss[i][x].hb > 0 /\ ~ss[i][x].spoiled /\ ss' = [ss EXCEPT ![i][x].spoiled = TRUE]
Acts == {"flip", "dup", "del", "swap", "reflect"}
Most == LET n == {Len(ss[i][x].recs) : i \in I, x \in X} IN CHOOSE m \in n : \A k \in n : k <= m
Evil == \E i \in I, x \in X :
           \/ Spoil(i, x)
           \/ \E r \in 1..Most : \/ \E act \in Acts : Net(act, i, x, r, i)
                                \/ \E j \in I : Net("from", i, x, r, j)
Next == \/ \E i \in I, x \in X : Hs(i, x) \/ Fp(i, x) \/ DropProxy(i, x) \/ (\E n \in Sizes : Say(i, x, n)) \/ \E k \in 1..3 : Hear(i, x, k)
        \/ Evil
Fair == \A i \in 1..2, x \in X :
           /\ WF_vars(i \in I /\ Offer(i, x, Available(ss[i][x])))
           /\ WF_vars(i \in I /\ Fp(i, x)) /\ WF_vars(i \in I /\ \E n \in Sizes : Say(i, x, n))
           /\ WF_vars(i \in I /\ \E k \in 1..3 : Hear(i, x, k))
Spec == Init /\ [][Next]_vars /\ Fair

\* What is delivered is what the other end sent, in order, nothing twice.
Delivered == \A i \in I, x \in X : clean[i][x] /\ ss[i][x].got <= ss[i][Other(x)].sent
\* The server's end finishes after the client's; what they know agrees.
ClientFirst == \A i \in I : ss[i]["s"].p.fin => ss[i]["c"].p.fin
Agreed == \A i \in I : LET c == ss[i]["c"].p s == ss[i]["s"].p IN
             c.fin /\ s.fin => /\ c.res[1].su = s.res[1].su
                               /\ c.res[1].lid = s.res[1].pid /\ c.res[1].pid = s.res[1].lid
                               /\ c.res[1].lid = ClientId(ss[i].cfg) /\ c.res[1].pid = ServerId(ss[i].cfg)
\* No keys for anybody whom the S2A refused or for a peer that is not a target.
Refused == \A i \in I, x \in X : LET d == ss[i][x] IN
             /\ d.failed => ~d.p.fin /\ d.ep = <<>>
             /\ d.ep # <<>> => Trusted(ss[i].cfg) /\ Suite(ss[i].cfg) # -1
\* Handshake bytes are taken exactly once.
Taken == \A i \in I : LET S == ss[i] IN
           /\ ~S["s"].failed => S["s"].in + S["s"].hb <= LCH + LCF
           /\ ~S["c"].failed => S["c"].in + S["c"].hb <= LSF
           /\ S["s"].p.fin => S["s"].hb = 0 /\ S["s"].in = LCH + LCF
           /\ S["c"].p.fin => S["c"].hb = 0 /\ S["c"].in = LSF
\* Without interference nothing is lost on the way and nothing is refused.
Quiet == left = Budget => \A i \in I, x \in X : LET d == ss[i][x] IN
           ~d.broken /\ d.got + Sum(d.recs) = ss[i][Other(x)].sent
\* The client keeps the first five tickets of its own session, in order.
OwnTickets == \A i \in I : ss[i]["c"].ep # <<>> =>
                LET t == ss[i]["c"].ep[1].hs.tickets IN Len(t) <= Least(ss[i].cfg.tix, MaxTickets)
\* Liveness (no budget): everybody finishes who may, all data arrives.
Good(i) == Trusted(ss[i].cfg) /\ Suite(ss[i].cfg) # -1
AllFinish == <>(\A i \in I : Good(i) => \A x \in X : ss[i][x].p.fin \/ ss[i][x].gone)
AllArrive == <>[](\A i \in I : Good(i) => \A x \in X : ss[i][x].got = ss[i][Other(x)].sent /\ told[i][x] = Sends)
\* A step concerns one session (only the network has a view of others).
Alone == [][\A i, j \in I : i # j => ss'[i] = ss[i] \/ ss'[j] = ss[j]]_vars
=============================================================================
