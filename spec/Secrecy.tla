------------------------------ MODULE Secrecy ------------------------------
(* What the library says - log lines and error messages - is a function of     *)
(* public things only: which operation, which check failed, lengths, types,    *)
(* numbers, what the crypto library reports. An event lists the kinds of       *)
(* secrets (key, data, token, ticket) found in what was said during it. A      *)
(* "twin" event compares what was said in two runs that differ only in the     *)
(* secrets; det: two runs with the same secrets said the same.                 *)
LOCAL INSTANCE Sequences
Tells(e) == IF "told" \in DOMAIN e THEN {<<"C28", "message contains a secret: " \o e.told[i]>> : i \in DOMAIN e.told} ELSE {}
Dependent(e) == e.det /\ ~e.same

(* The rule itself, used by the model: the words for an outcome.               *)
Words(op, outcome, len) == IF outcome = "ok" THEN <<>> ELSE <<op, outcome, len>>
=============================================================================
