------------------------------ MODULE TokensMC -------------------------------
EXTENDS Tokens, Sequences, TLC
CONSTANTS Values, Managers, MaxOps
VARIABLES env, ms, log, born, n
vars == <<env, ms, log, born, n>>
Init == env = Absent /\ ms = <<>> /\ log = <<Absent>> /\ born = <<>> /\ n = 0
SetEnv(v) == env' = v /\ log' = Append(log, v) /\ UNCHANGED <<ms, born>>
Build(k) == ms' = Built(ms, k, env) /\ born' = Built(born, k, Len(log)) /\ UNCHANGED <<env, log>>
Kill(k) == k \in DOMAIN ms /\ ms' = Killed(ms, k) /\ born' = Killed(born, k) /\ UNCHANGED <<env, log>>
Next == n < MaxOps /\ n' = n + 1 /\ ((\E v \in Values \cup {Absent} : SetEnv(v)) \/ (\E k \in Managers : Build(k) \/ Kill(k)))
Spec == Init /\ [][Next]_vars
AtBirth == \A k \in DOMAIN ms : ms[k] = log[born[k]]
Constant == [][\A k \in DOMAIN ms \cap DOMAIN ms' : ms'[k] # ms[k] => born'[k] = Len(log)]_vars
=============================================================================
