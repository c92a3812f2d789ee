------------------------------ MODULE RecordGen -----------------------------
(* Generator of scripts for the real record layer: every operation of a        *)
(* catalogue in every abstract state of the endpoint.                          *)
EXTENDS Record, TLC, Json
CONSTANTS MaxEp, Side   \* Side: "in" or "out"
VARIABLES e, pend, wire, op
Init == e = Endpoint(Zero, Zero) /\ pend = <<>> /\ wire = 0 /\ op = <<"init">>
Min(a, b) == IF a < b THEN a ELSE b
View == <<e.hs.hdr, e.hs.need, Len(e.hs.tickets), e.hs.retrieved, e.hsdead, pend, e.closed, Min(e.in.ep, MaxEp),
          e.in.broken, Min(e.out.ep, MaxEp), e.out.broken, wire>>
\* a connection that is over is not told apart by how it got there
Over(s) == s.closed \/ s.in.broken \/ s.hsdead
Norm(s) == [(IF Over(s) THEN [s EXCEPT !.hs = HsInit, !.in.ep = 0] ELSE s) EXCEPT !.hs.tickets = [i \in DOMAIN @ |-> <<>>], !.hs.msg = <<>>,
                     !.in.sq = Zero, !.out.sq = Zero, !.in.ep = Min(@, MaxEp), !.out.ep = Min(@, MaxEp)]
R(t, bs, fired) ==
    [hdr |-> <<TApp, 3, 3, 0, 17 + Len(bs)>>, plen |-> 17 + Len(bs), cap |-> 100, mut |-> FALSE, re |-> e.in.ep, rs |-> e.in.sq,
     rt |-> t, clen |-> Len(bs), runs |-> OfBytes(bs), fired |-> fired, hm |-> fired]
Take(r) == LET give == May(e, r) IN e' = Norm(CHOOSE x \in RecvNext(e, r, give) : TRUE)
Plain == {<<TApp, <<>>>>, <<TApp, <<77, 78, 79>>>>, <<TAlert, <<2, 0>>>>, <<TAlert, <<2, 40>>>>, <<TAlert, <<1>>>>, <<9, <<5, 6>>>>, <<0, <<>>>>}
Recv == \E c \in Plain, pad \in {0, 3} :
          /\ Take(R(c[1], c[2], FALSE)) /\ op' = <<"recv", c[1], c[2], pad, 0>> /\ wire' = 1 /\ pend' = IF Over(e') THEN <<>> ELSE pend
Cat == {<<4, 0, 0, 1, 170>>, <<24, 0, 0, 1, 0>>, <<24, 0, 0, 1, 1>>, <<4, 0, 0, 0>>, <<9, 0, 0, 0>>}
Hs == \E x \in Cat \cup {<<>>} : \E k \in {1, 3, 4, 5, 7, 9, 10} : \E fired \in BOOLEAN :
        LET total == pend \o x IN
        /\ (pend # <<>> => Len(pend) <= 5) /\ k <= Len(total) /\ (x # <<>> => k > Len(pend))
        /\ IF fired THEN e' = Norm([e EXCEPT !.in.broken = TRUE]) ELSE Take(R(THs, SubSeq(total, 1, k), FALSE))
        /\ op' = <<"hs", SubSeq(total, 1, k), fired>>
        /\ pend' = IF Over(e') \/ fired THEN <<>> ELSE SubSeq(total, k + 1, Len(total))
        /\ wire' = 1
Other == /\ \E o \in {"replay", "mutapp", "muths", "hdr", "skip", "oldkey", "newkey", "small"} : op' = <<o>>
         /\ UNCHANGED <<e, pend, wire>>
Out == \/ /\ \E o \in {"send", "sendbig", "sendsmall", "sendbad", "sendfault"} : op' = <<o>>
          /\ UNCHANGED <<e, pend, wire>>
       \/ /\ op' = <<"update">> /\ e' = Norm([e EXCEPT !.out = IF @.broken THEN @ ELSE Rekeyed(@)]) /\ UNCHANGED <<pend, wire>>
       \/ /\ op' = <<"updatefault">> /\ e' = [e EXCEPT !.out = Broken(@)] /\ UNCHANGED <<pend, wire>>
Next == (Side = "in" /\ (Recv \/ Hs \/ Other)) \/ (Side = "out" /\ (Out \/ Other))
Edge == PrintT(ToJson([from |-> View, op |-> op', to |-> View']))
=============================================================================
