------------------------------- MODULE ConcMC -------------------------------
(* The locking of one connection, step by step: two threads protect, one of    *)
(* them also updates the outbound key, one unprotects. A protect reads the     *)
(* tag length of the inbound side, then encrypts under the outbound lock; a    *)
(* message of several records holds the message lock meanwhile. Inbound: a     *)
(* record is opened under the inbound lock; a key update takes it again.       *)
(* Every call remembers the calls that had ended; every history of calls must  *)
(* be linearizable with respect to Objects, nonces are never used twice, and   *)
(* the tag length is never read while the inbound crypter is being replaced.   *)
EXTENDS Objects, TLC
CONSTANTS Work,       \* thread -> sequence of calls
          Locked      \* locks that are really taken: subset of {"in", "out", "msg"}
VARIABLES pc, todo, lock, out, inb, loc, hist, torn
vars == <<pc, todo, lock, out, inb, loc, hist, torn>>
Threads == DOMAIN Work
Free(l) == l \notin Locked \/ lock[l] = 0
Take(l, t) == IF l \in Locked THEN [lock EXCEPT ![l] = t] ELSE lock
Give(l) == IF l \in Locked THEN [lock EXCEPT ![l] = 0] ELSE lock
Init == /\ pc = [t \in Threads |-> "idle"] /\ todo = Work /\ lock = [l \in {"in", "out", "msg"} |-> 0]
        /\ out = [ep |-> 0, sq |-> 0, half |-> FALSE] /\ inb = [ep |-> 0, sq |-> 0, half |-> FALSE]
        /\ loc = [t \in Threads |-> <<>>] /\ hist = {} /\ torn = FALSE
\* loc[t]: call, its name, the calls that had ended, records, number read
Go(t, p) == pc' = [pc EXCEPT ![t] = p]
Start(t) == /\ pc[t] = "idle" /\ todo[t] # <<>>
            /\ loc' = [loc EXCEPT ![t] = [c |-> Head(todo[t]), id |-> <<t, Len(todo[t])>>, preds |-> {h.id : h \in hist}, recs |-> <<>>, seq |-> <<0, 0>>]]
            /\ todo' = [todo EXCEPT ![t] = Tail(@)]
            /\ Go(t, CASE Head(todo[t]).k = "P" -> "msg" [] Head(todo[t]).k = "k" -> "upd" [] OTHER -> "open")
            /\ UNCHANGED <<lock, out, inb, hist, torn>>
U1 == UNCHANGED <<todo, hist>>
Msg(t) == pc[t] = "msg" /\ Free("msg") /\ lock' = Take("msg", t) /\ Go(t, "tag") /\ U1 /\ UNCHANGED <<out, inb, loc, torn>>
\* the tag length, under the inbound lock
Tag(t) == pc[t] = "tag" /\ Free("in") /\ Go(t, "enc") /\ torn' = (torn \/ inb.half) /\ U1 /\ UNCHANGED <<lock, out, inb, loc>>
Enc(t) == pc[t] = "enc" /\ Free("out") /\ lock' = Take("out", t) /\ Go(t, "seal")
          /\ loc' = [loc EXCEPT ![t].seq = <<out.ep, out.sq>>] /\ torn' = (torn \/ out.half) /\ U1 /\ UNCHANGED <<out, inb>>
Seal(t) == /\ pc[t] = "seal" /\ lock' = Give("out")
           /\ out' = [out EXCEPT !.sq = loc[t].seq[2] + 1]
           /\ loc' = [loc EXCEPT ![t].recs = Append(@, loc[t].seq)]
           /\ Go(t, IF Len(loc[t].recs) + 1 < loc[t].c.need THEN "tag" ELSE "fin") /\ U1 /\ UNCHANGED <<inb, torn>>
Fin(t) == /\ pc[t] = "fin" /\ lock' = (IF lock["msg"] = t THEN Give("msg") ELSE lock) /\ Go(t, "ret") /\ U1 /\ UNCHANGED <<out, inb, loc, torn>>
Upd(t) == pc[t] = "upd" /\ Free("out") /\ lock' = Take("out", t) /\ out' = [out EXCEPT !.half = TRUE] /\ Go(t, "upd2") /\ U1 /\ UNCHANGED <<inb, loc, torn>>
Upd2(t) == pc[t] = "upd2" /\ lock' = Give("out") /\ out' = [ep |-> out.ep + 1, sq |-> 0, half |-> FALSE] /\ Go(t, "ret") /\ U1 /\ UNCHANGED <<inb, loc, torn>>
\* inbound: the peer's records come in order, so opening succeeds exactly when
\* the inbound state is the peer's
Open(t) == pc[t] = "open" /\ Free("in") /\ torn' = (torn \/ inb.half) /\ inb' = [inb EXCEPT !.sq = @ + 1]
           /\ Go(t, IF loc[t].c.kinds = <<"ku">> THEN "iku" ELSE "ret") /\ U1 /\ UNCHANGED <<lock, out, loc>>
Iku(t) == pc[t] = "iku" /\ Free("in") /\ lock' = Take("in", t) /\ inb' = [inb EXCEPT !.half = TRUE] /\ Go(t, "iku2") /\ U1 /\ UNCHANGED <<out, loc, torn>>
Iku2(t) == pc[t] = "iku2" /\ lock' = Give("in") /\ inb' = [ep |-> inb.ep + 1, sq |-> 0, half |-> FALSE] /\ Go(t, "ret") /\ U1 /\ UNCHANGED <<out, loc, torn>>
Ret(t) == /\ pc[t] = "ret" /\ Go(t, "idle")
          /\ hist' = hist \cup {[t |-> t, k |-> loc[t].c.k, need |-> loc[t].c.need, recs |-> loc[t].recs, kinds |-> loc[t].c.kinds, tk |-> <<>>,
                                 ok |-> TRUE, same |-> TRUE, left |-> FALSE, empty |-> FALSE, id |-> loc[t].id, preds |-> loc[t].preds]}
          /\ loc' = [loc EXCEPT ![t] = <<>>]
          /\ UNCHANGED <<todo, lock, out, inb, torn>>
Step(t) == Start(t) \/ Msg(t) \/ Tag(t) \/ Enc(t) \/ Seal(t) \/ Fin(t) \/ Upd(t) \/ Upd2(t) \/ Open(t) \/ Iku(t) \/ Iku2(t) \/ Ret(t)
Finished == \A t \in Threads : pc[t] = "idle" /\ todo[t] = <<>>
Next == (\E t \in Threads : Step(t)) \/ (Finished /\ UNCHANGED vars)
Spec == Init /\ [][Next]_vars
OutNext(s, o) == ConnNext(s, o)
Earlier(y, x) == y.id \in x.preds
C == INSTANCE Conc WITH Next <- OutNext, Before <- Earlier
Linearizable == Finished => C!Lin(Conn(100), hist) # {}
All == UNION {{<<h, i>> : i \in 1..Len(h.recs)} : h \in hist}
NonceUnique == \A x, y \in All : x # y => x[1].recs[x[2]] # y[1].recs[y[2]]
NotTorn == ~torn
P(n) == [k |-> "P", need |-> n, kinds |-> <<>>]
K == [k |-> "k", need |-> 0, kinds |-> <<>>]
UA == [k |-> "U", need |-> 0, kinds |-> <<"app">>]
UK == [k |-> "U", need |-> 0, kinds |-> <<"ku">>]
Work1 == <<<<P(1), P(1)>>, <<K, P(1)>>, <<UA, UK>>>>
Work2 == <<<<P(2)>>, <<P(2)>>, <<UK>>>>
Work3 == <<<<P(2), P(1)>>, <<P(2), K>>, <<UK, UA>>>>
AllLocks == {"in", "out", "msg"}
=============================================================================
