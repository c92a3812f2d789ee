------------------------------- MODULE Tokens --------------------------------
(* The token manager that serves the access token environment variable: the   *)
(* value is taken once, when the manager is built.                             *)
EXTENDS Integers
Absent == "unset"
Built(ms, k, env) == [x \in DOMAIN ms \cup {k} |-> IF x = k THEN env ELSE ms[x]]
Killed(ms, k) == [x \in DOMAIN ms \ {k} |-> ms[x]]
=============================================================================
