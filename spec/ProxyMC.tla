------------------------------ MODULE ProxyMC -------------------------------
(* Model of the proxy with every token source, call order and response.        *)
EXTENDS TLC, Integers, Sequences, FiniteSets
CONSTANTS Ids, MaxSteps
None == "n"
TTok(i) == i
INSTANCE Proxy WITH None <- "n", Tok <- TTok, DefTok <- "default"
VARIABLES p, src, sent, resps, steps
vars == <<p, src, sent, resps, steps>>
cfgs == [min |-> 1, max |-> 1, suites |-> <<0>>]
Srcs == [avail : SUBSET Ids, def : BOOLEAN]
Init == /\ \E c \in BOOLEAN, lo \in SUBSET Ids, tm \in BOOLEAN : p = Proxy(c, lo, tm, TRUE)
        /\ src \in Srcs /\ sent = <<>> /\ resps = {} /\ steps = 0
Message == \E n \in {0, 1} : LET k == Kind(p, cfgs, n) IN
    /\ k # "no"
    /\ \E t \in Tokens(p, src) : p' = AfterMessage(p, t) /\ sent' = Append(sent, [k |-> k, toks |-> t, sel |-> p.sel, src |-> src])
    /\ UNCHANGED <<src, resps>>
Refused == \E n \in {0, 1} : Kind(p, cfgs, n) = "no" /\ UNCHANGED <<p, src, sent, resps>>
Change == src' \in Srcs /\ src' # src /\ UNCHANGED <<p, sent, resps>>
Resps == {[bad |-> b, hasst |-> h, okst |-> o, haslid |-> l # "none", lid |-> l, hasres |-> r, hasstate |-> st, hasrlid |-> rl, rlid |-> "n", ver |-> v, su |-> su] :
             b \in BOOLEAN, h \in BOOLEAN, o \in BOOLEAN, l \in Ids \cup {"none"}, r \in BOOLEAN, st \in BOOLEAN, rl \in BOOLEAN, v \in {1, 2}, su \in {0, 3}}
Sensible == {r \in Resps : (r.bad => ~r.haslid /\ r.hasst /\ r.okst) /\ (~r.hasres => r.hasstate /\ r.hasrlid /\ r.ver = 1 /\ r.su = 0)}
Response == \E r \in Sensible, c \in {"x", "y"} :
    /\ (c = "y" => r.hasres /\ Acceptable(r))
    /\ p' \in AfterResponse(p, r, [ver |-> 1, su |-> 0, ikl |-> 32, okl |-> 32, c |-> c])
    /\ resps' = IF Acceptable(r) /\ r.hasres THEN resps \cup {c} ELSE resps
    /\ UNCHANGED <<src, sent>>
Next == steps < MaxSteps /\ steps' = steps + 1 /\ (Message \/ Refused \/ Change \/ Response)
Spec == Init /\ [][Next]_vars

StartOnce == \A i \in 1..Len(sent) : (i = 1) <=> (sent[i].k # "next")
RightRole == Len(sent) > 0 => sent[1].k = (IF p.client THEN "client" ELSE "server")
Paired == \A i \in 1..Len(sent) : \A t \in sent[i].toks : t[2] = TTok(t[1]) \/ t = <<None, "default">>
OnePer == \A i \in 1..Len(sent) : \A t, u \in sent[i].toks : t[1] = u[1] => t = u
NoSource == ~p.tm => \A i \in 1..Len(sent) : sent[i].toks = {}
\* an identity that is neither configured nor selected by the S2A gets no token
Entitled == \A i \in 1..Len(sent) : \A t \in sent[i].toks : t[1] \in p.locals \cup {None} \/ \E j \in 1..i : sent[j].sel = <<t[1]>>
StartTokens == Len(sent) > 0 /\ sent[1].sel = <<>> /\ p.tm =>
    {t[1] : t \in sent[1].toks} = IF p.locals = {} THEN (IF sent[1].src.def THEN {None} ELSE {}) ELSE p.locals \cap sent[1].src.avail
Selected == \A i \in 1..Len(sent) : p.tm /\ sent[i].sel # <<>> /\ sent[i].sel[1] \in sent[i].src.avail => sent[i].toks = {<<sent[i].sel[1], TTok(sent[i].sel[1])>>}
FinishedByResult == p.fin <=> resps # {}
ResultDelivered == p.fin => p.res[1].c \in resps
FinForever == [][p.fin => p'.fin]_vars
FailedNothing == [][p' = p \/ p'.first # p.first \/ p'.sel # p.sel \/ p'.fin # p.fin \/ p'.res # p.res \/ p'.cache # p.cache]_vars
=============================================================================
