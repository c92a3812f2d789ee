------------------------------ MODULE OptionsGen -----------------------------
(* Generator: every setter and copy in every small state of two places.        *)
EXTENDS Options, TLC, Json
CONSTANT MaxSet
Fields == DOMAIN Fresh0
VARIABLES h, op
Init == h = [x \in {0} |-> Fresh0] /\ op = [op |-> "new", s |-> 0]
Ops == {[op |-> "copy", s |-> s, d |-> d] : s \in {0, 1}, d \in {0, 1}}
       \cup {[op |-> o, s |-> s, v |-> v] : o \in {"min", "max"}, s \in {0, 1}, v \in {0, 1}}
       \cup {[op |-> "suite", s |-> s, v |-> 2] : s \in {0, 1}}
       \cup {[op |-> "addr", s |-> s, v |-> "x"] : s \in {0, 1}}
       \cup {[op |-> o, s |-> s, v |-> "x"] : o \in {"local", "target"}, s \in {0, 1}}
       \cup {[op |-> "new", s |-> s] : s \in {0, 1}} \cup {[op |-> "drop", s |-> 1]}
Next == \E o \in Ops : (o.op \in Setters \cup {"copy", "drop"} => o.s \in DOMAIN h) /\ h' = Apply(h, o) /\ op' = o
        /\ \A s \in DOMAIN h' : Len(h'[s].suites) <= 1
        /\ Cardinality({p \in (DOMAIN h') \X Fields : h'[p[1]][p[2]] # Fresh0[p[2]]}) <= MaxSet
View == h
Edge == PrintT(ToJson([from |-> ToString(h), op |-> op', to |-> ToString(h')]))
=============================================================================
