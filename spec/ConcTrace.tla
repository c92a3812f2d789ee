----------------------------- MODULE ConcTrace ------------------------------
(* Runs of several threads on the real objects: is there an order that the     *)
(* sequential specification allows?                                            *)
EXTENDS Objects, TLC, Json, IOUtils
VARIABLES l, cs, viol, cnt
TraceData == ndJsonDeserialize(IOEnv.TRACE)
If(c, why) == IF c THEN {<<"C24", why>>} ELSE {}
SNext(s, o) == CASE s.kind = "conn" -> {[s EXCEPT !.o = x] : x \in ConnNext(s.o, o)}
                 [] s.kind = "proxy" -> {[s EXCEPT !.o = x] : x \in HandNext(s.o, o)}
                 [] OTHER -> {[s EXCEPT !.o = x] : x \in TokNext(s.o, o)}
Earlier(y, x) == y.res < x.inv
C == INSTANCE Conc WITH Next <- SNext, Before <- Earlier
Object(e) == [kind |-> IF e.kind \in {"crypter", "fp"} THEN "conn" ELSE e.kind, handed |-> 0,
              o |-> CASE e.kind \in {"crypter", "fp"} -> Conn(e.left) [] e.kind = "proxy" -> Hand(e.client, e.ntok) [] OTHER -> e.v]
CFresh(e) == [ss |-> IF ~e.ok THEN {} ELSE {<<Object(e)>>}, bad |-> If(~e.ok, "cannot be created")]
CCrash(e) == {<<"C24", e.kind>>}
\* tickets are handed over once, all that were complete, at the latest with application data
Handed(s, n, hs) ==
    IF s.kind # "conn" THEN {}
    ELSE LET h == s.handed + Len(hs) IN
         If(h > 1 \/ (Len(hs) = 1 /\ hs[1] # n.o.tk) \/ (n.o.done /\ h = 0) \/ (Len(hs) >= 1 /\ ~n.o.done /\ Len(n.o.tk) < MaxTickets),
            "tickets lost or handed over twice")
Why(ops) == LET p == {x \in ops : x.k \in {"a", "h", "P", "p"} /\ x.ok}
              R == {<<x, j>> \in p \X (1..200) : j <= Len(x.recs)} IN
          IF \E x, y \in R : x # y /\ x[1].recs[x[2]] = y[1].recs[y[2]]
          THEN "key and sequence number used twice"
          ELSE "no order of the calls explains the results"
\* objects do not share anything: each has its own order
One(s, ops, hs) ==
    LET ns == C!Lin(s, ops) IN
    IF ns = {} THEN {[s |-> s, live |-> FALSE, bad |-> If(TRUE, IF s.kind = "conn" THEN Why(ops) ELSE "no order of the calls explains the results")]}
    ELSE {[s |-> [n EXCEPT !.handed = @ + Len(hs), !.o = IF Len(hs) > 0 THEN [@ EXCEPT !.done = TRUE] ELSE @],
           live |-> TRUE, bad |-> Handed(s, n, hs)] : n \in ns}
RECURSIVE Prod(_)
Prod(q) ==
    IF q = <<>> THEN {[s |-> <<>>, live |-> TRUE, bad |-> {}]}
    ELSE {[s |-> <<x.s>> \o y.s, live |-> x.live /\ y.live, bad |-> x.bad \cup y.bad] : x \in Head(q), y \in Prod(Tail(q))}
CStep(s, e) ==
    IF e.op = "add" THEN {[s |-> Append(s, Object(e)), live |-> TRUE, bad |-> If(~e.ok, "cannot be created")]}
    ELSE {[x EXCEPT !.bad = @ \cup If(e.stray, "tickets handed over for another connection")] :
             x \in Prod([k \in 1..Len(s) |-> One(s[k], {e.ops[i] : i \in {j \in 1..Len(e.ops) : e.ops[j].c = k}}, e.handed[k])])}
R == INSTANCE TraceRun WITH Fresh <- CFresh, Step <- CStep, CrashProps <- CCrash, Trace <- TraceData
Init == R!TInit
Next == R!TNext
=============================================================================
