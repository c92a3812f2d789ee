----------------------------- MODULE SecrecyMC -----------------------------
(* Two systems side by side that differ in their secrets only (self            *)
(* composition). The adversary and the user do the same to both; whatever they *)
(* do, both say the same, although they deliver different data.                *)
EXTENDS Integers, Sequences, FiniteSets, Secrecy
CONSTANTS MaxOps, Lens
VARIABLES st, said, got, n
vars == <<st, said, got, n>>
Side == {1, 2}
(* secrets are atoms of the side *)
Atom(i, what) == <<"secret", i, what>>
Init == /\ st = [i \in Side |-> [open |-> FALSE, key |-> Atom(i, 0), upd |-> 0, tok |-> FALSE]]
        /\ said = [i \in Side |-> <<>>] /\ got = [i \in Side |-> <<>>] /\ n = 0

Outcomes(op) == CASE op = "create" -> {"ok", "bad key length", "library failure"}
                  [] op = "send" -> {"ok", "too long", "exhausted", "library failure"}
                  [] op = "recv" -> {"ok", "not authentic", "bad header", "library failure", "alert", "bad type"}
                  [] op = "update" -> {"ok", "library failure"}
                  [] op = "token" -> {"ok", "no token"}
Ops == {"create", "send", "recv", "update", "token"}
Do(op, len, o) ==
    /\ n < MaxOps /\ n' = n + 1
    /\ st[1].open = (op # "create")
    /\ said' = [i \in Side |-> said[i] \o (IF Words(op, o, len) = <<>> THEN <<>> ELSE <<Words(op, o, len)>>)]
    /\ got' = [i \in Side |-> IF o # "ok" THEN got[i]
                              ELSE IF op = "recv" THEN Append(got[i], <<Atom(i, "data"), len>>)
                              ELSE IF op = "send" THEN Append(got[i], <<"sealed", st[i].key, len>>) ELSE got[i]]
    /\ st' = [i \in Side |-> IF o # "ok" THEN st[i]
                             ELSE CASE op = "create" -> [st[i] EXCEPT !.open = TRUE]
                                    [] op = "update" -> [st[i] EXCEPT !.upd = @ + 1, !.key = Atom(i, st[i].upd + 1)]
                                    [] op = "token" -> [st[i] EXCEPT !.tok = TRUE]
                                    [] OTHER -> st[i]]
Next == \E op \in Ops : \E len \in Lens : \E o \in Outcomes(op) : Do(op, len, o)
Spec == Init /\ [][Next]_vars
SaySame == said[1] = said[2]
Public == \A i \in Side : \A k \in DOMAIN said[i] : \A j \in DOMAIN said[i][k] : said[i][k][j] \in (Lens \cup Ops \cup UNION {Outcomes(o) : o \in Ops})
Differ == \A k \in DOMAIN got[1] : got[1][k] # got[2][k]
=============================================================================
