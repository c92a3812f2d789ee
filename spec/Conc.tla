-------------------------------- MODULE Conc ---------------------------------
(* What several threads may observe: an object with a sequential specification *)
(* (Next) is linearizable if the calls of a run, each with the times of its    *)
(* start and end, can be put in an order that keeps calls that do not overlap  *)
(* in order and that the sequential specification allows.                      *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS Next(_, _),     \* state, call with its result -> set of next states
          Before(_, _)    \* whether one call ended before the other started
Eligible(todo) == {x \in todo : \A y \in todo : ~Before(y, x)}
RECURSIVE Rounds(_, _)
Rounds(front, n) ==
    IF n = 0 \/ front = {} THEN {f[1] : f \in front}
    ELSE Rounds(UNION {UNION {{<<s2, f[2] \ {o}>> : s2 \in Next(f[1], o)} : o \in Eligible(f[2])} : f \in front}, n - 1)
\* the states in which the object can be after the calls, {} if no order explains them
Lin(s, calls) == Rounds({<<s, calls>>}, Cardinality(calls))
=============================================================================
