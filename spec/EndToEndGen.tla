---------------------------- MODULE EndToEndGen -----------------------------
(* Generator of scripts for two real ends: every step of EndToEndMC from every *)
(* state, with flights of the real size.                                       *)
EXTENDS EndToEndMC, Json
CONSTANTS Pieces     \* bytes offered to a proxy, besides everything
VARIABLE op
GInit == Init /\ op = <<"init">>
Begin == op = <<"init">> /\ op' = <<"begin", [i \in I |-> ss[i].cfg]>> /\ UNCHANGED vars
Step ==
    \E i \in I, x \in X :
       \/ \E n \in Pieces \cup {Available(ss[i][x])} : Offer(i, x, n) /\ op' = <<"hs", i, x, n>>
       \/ Fp(i, x) /\ op' = <<"fp", i, x>>
       \/ DropProxy(i, x) /\ op' = <<"drop", i, x>>
       \/ \E n \in Sizes : Say(i, x, n) /\ op' = <<"send", i, x, n>>
       \/ \E k \in {1, 2} : Hear(i, x, k) /\ op' = <<"recv", i, x, k>>
       \/ Spoil(i, x) /\ op' = <<"spoil", i, x>>
       \/ \E r \in 1..Most : \/ \E act \in Acts : Net(act, i, x, r, i) /\ op' = <<"net", i, x, act, r, i>>
                            \/ \E j \in I : Net("from", i, x, r, j) /\ op' = <<"net", i, x, "from", r, j>>
GNext == Begin \/ (op # <<"init">> /\ Step)
\* not needed to tell states apart: what the steps to come do not depend on
Core(S) == [S EXCEPT !.c.recs = [n \in DOMAIN @ |-> <<@[n].own, @[n].mut, @[n].rs, @[n].rt, @[n].clen>>],
                     !.s.recs = [n \in DOMAIN @ |-> <<@[n].own, @[n].mut, @[n].rs, @[n].rt, @[n].clen>>]]
View == <<op = <<"init">>, [i \in I |-> Core(ss[i])], left, told>>
Edge == PrintT(ToJson([from |-> IF op = <<"init">> THEN <<>> ELSE View, op |-> op', to |-> View']))
GenOne == {<<Cfg(<<0>>, <<0>>, 0, <<1>>, <<1>>, 1, FALSE)>>}
GenMore == {<<Cfg(<<1>>, <<1>>, 0, <<1>>, tg, tix, lazy)>> : tg \in {<<1>>, <<2>>}, tix \in {0, 2}, lazy \in BOOLEAN}
GenTwo == {<<Cfg(<<2>>, <<2>>, 0, <<1>>, <<>>, 1, TRUE), Cfg(<<2>>, <<2>>, 0, <<1>>, <<>>, 0, TRUE)>>}
=============================================================================
