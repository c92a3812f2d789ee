------------------------------ MODULE TokensGen ------------------------------
EXTENDS Tokens, TLC, Json
VARIABLES env, ms, op
Init == env = Absent /\ ms = <<>> /\ op = <<"init">>
Next == \/ \E v \in {Absent, "", "x", "y"} : env' = v /\ ms' = ms /\ op' = <<"setenv", v>>
        \/ \E k \in {0, 1} : \/ ms' = Built(ms, k, env) /\ op' = <<"build", k>> /\ env' = env
                             \/ k \in DOMAIN ms /\ ms' = Killed(ms, k) /\ op' = <<"kill", k>> /\ env' = env
                             \/ k \in DOMAIN ms /\ \E i \in {"default", "s:61", "h:61", "u:61", "n:"} : op' = <<"get", k, i>> /\ UNCHANGED <<env, ms>>
View == <<env, ms>>
Edge == PrintT(ToJson([from |-> ToString(View), op |-> op', to |-> ToString(View')]))
=============================================================================
