------------------------------ MODULE ProxyGen ------------------------------
(* Generator of scripts for the real proxy: every call and kind of response in *)
(* every abstract state, for a catalogue of configurations.                    *)
EXTENDS TLC, Json, Integers, Sequences, FiniteSets
None == "n"
TTok(i) == i
INSTANCE Proxy WITH None <- "n", Tok <- TTok, DefTok <- "d"
CONSTANTS Cfgs, Small
VARIABLES st, op
Init == st = <<>> /\ op = <<"init">>
Mk(c) == [p |-> Proxy(c[1], c[2], c[3], TRUE), src |-> [avail |-> c[4], def |-> c[5]], c |-> c]
Reset == st = <<>> /\ \E c \in Cfgs : st' = <<Mk(c)>> /\ op' = <<"reset", c[1], c[2], c[3], c[4], c[5]>>
cfg == [min |-> 1, max |-> 1, suites |-> <<0>>]
S == st[1]
Message == \E n \in {0, 1} :
    /\ op' = <<"s2a", n>>
    /\ IF Kind(S.p, cfg, n) = "no" THEN st' = st
       ELSE st' = <<[S EXCEPT !.p = AfterMessage(@, CHOOSE t \in Tokens(S.p, S.src) : TRUE)]>>
Change == \E a \in (IF Small THEN {{}, {"a", "b"}} ELSE SUBSET {"a", "b"}), d \in (IF Small THEN {TRUE} ELSE BOOLEAN) : st' = <<[S EXCEPT !.src = [avail |-> a, def |-> d]]>> /\ op' = <<"avail", a, d>>
R(b, h, o, l, r, hs, rl, v, su) == [bad |-> b, hasst |-> h, okst |-> o, haslid |-> l # "-", lid |-> l, hasres |-> r, hasstate |-> hs, hasrlid |-> rl, rlid |-> "a", ver |-> v, su |-> su]
T == TRUE
F == FALSE
Cat == {R(F, T, T, l, F, T, T, 1, 0) : l \in {"-", "a", "b"}} \cup
       {R(F, T, T, l, T, T, T, v, 0) : l \in {"-", "a"}, v \in {0, 1}} \cup
       {R(F, T, F, "a", F, T, T, 1, 0), R(F, F, T, "a", F, T, T, 1, 0), R(F, T, F, "a", T, T, T, 1, 0), R(F, F, T, "b", T, T, T, 1, 0),
        R(F, T, T, "-", T, F, T, 1, 0), R(F, T, T, "-", T, T, F, 1, 0), R(F, T, T, "-", T, T, T, 2, 0), R(F, T, T, "-", T, T, T, 1, 3),
        R(F, T, T, "-", T, T, T, 1, 1), R(T, T, T, "-", T, T, T, 1, 0)}
Response == \E r \in Cat :
    /\ st' = <<[S EXCEPT !.p = CHOOSE x \in AfterResponse(S.p, r, [ver |-> r.ver, su |-> r.su, ikl |-> HashLen(r.su), okl |-> 32]) : TRUE]>>
    /\ op' = <<"peer", r>>
Look == \E o \in {"fp", "ctx", "tickets", "peernull", "peerempty"} : op' = <<o>> /\ st' = st
Next == Reset \/ (st # <<>> /\ (Message \/ Change \/ Response \/ Look))
View == st
Edge == PrintT(ToJson([from |-> View, op |-> op', to |-> View']))
CfgsQuick == {<<T, {}, T, {"a"}, T>>, <<T, {"a"}, T, {"a"}, T>>, <<F, {"a", "b"}, T, {"a", "b"}, F>>, <<F, {}, F, {}, F>>, <<T, {"a", "b"}, T, {"a"}, T>>}
CfgsAll == CfgsQuick \cup {<<F, {"a", "b"}, T, {}, T>>, <<F, {}, T, {"b"}, T>>, <<T, {"b"}, T, {}, F>>, <<F, {"a"}, F, {"a"}, T>>}
=============================================================================
