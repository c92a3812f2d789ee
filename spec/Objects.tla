------------------------------ MODULE Objects -------------------------------
(* Sequential specifications of the objects that threads share.                *)
EXTENDS Integers, Sequences, FiniteSets
MaxTickets == 5
\* --- one connection: outbound generation and number, inbound tickets --------
Conn(left) == [ep |-> 0, sq |-> 0, left |-> left, tk |-> <<>>, done |-> FALSE]
Room(s, n) == s.ep > 0 \/ s.sq + n <= s.left
Protect(s, o) ==
    IF ~Room(s, o.need) THEN IF o.ok THEN {} ELSE {s}
    ELSE IF ~o.ok THEN {}
    ELSE IF o.same /\ ~o.left /\ o.recs = [i \in 1..o.need |-> <<s.ep, s.sq + i - 1>>]
         THEN {[s EXCEPT !.sq = @ + o.need]} ELSE {}
Update(s, o) == IF o.ok THEN {[s EXCEPT !.ep = @ + 1, !.sq = 0]} ELSE {}
\* tickets: owed is the set of hand-overs that have become due
RECURSIVE Kept(_, _, _)
Kept(s, ks, tk) ==
    IF ks = <<>> THEN s
    ELSE LET k == Head(ks) IN
         Kept(CASE k = "tk" -> IF s.done \/ Len(s.tk) >= MaxTickets THEN s ELSE [s EXCEPT !.tk = Append(@, Head(tk))]
                [] k = "app" -> IF s.tk # <<>> THEN [s EXCEPT !.done = TRUE] ELSE s
                [] OTHER -> s,
              Tail(ks), IF k = "tk" THEN Tail(tk) ELSE tk)
Unprotect(s, o) ==
    IF \E i \in 1..Len(o.kinds) : o.kinds[i] = "bad" THEN IF o.ok \/ ~o.empty THEN {} ELSE {s}
    ELSE IF o.ok /\ o.same THEN {Kept(s, o.kinds, o.tk)} ELSE {}
ConnNext(s, o) == CASE o.k \in {"a", "h", "P", "p"} -> Protect(s, o) [] o.k = "k" -> Update(s, o) [] OTHER -> Unprotect(s, o)
\* --- the proxy ---------------------------------------------------------------
Hand(client, ntok) == [client |-> client, ntok |-> ntok, first |-> TRUE, fin |-> FALSE]
HandNext(s, o) ==
    CASE o.k = "f" -> IF o.ok = s.fin THEN {s} ELSE {}
      [] o.k = "s" -> LET kind == IF s.first THEN (IF s.client THEN (IF o.n = 0 THEN "client" ELSE "") ELSE "server") ELSE IF o.n = 0 THEN "" ELSE "next" IN
                      IF kind = "" THEN IF o.ok THEN {} ELSE {s}
                      ELSE IF o.ok /\ o.what = kind /\ o.same /\ o.ntok = s.ntok THEN {[s EXCEPT !.first = FALSE]} ELSE {}
      [] o.k = "r" -> IF o.arg = "e" THEN IF o.ok THEN {} ELSE {s}
                      ELSE IF o.ok /\ o.same THEN {[s EXCEPT !.fin = @ \/ o.arg = "r"]} ELSE {}
\* --- the token manager ---------------------------------------------------------
TokNext(s, o) == IF o.v = s THEN {s} ELSE {}
=============================================================================
