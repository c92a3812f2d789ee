------------------------------ MODULE OptionsMC ------------------------------
(* Options with copies: the value in each place is what its own history of     *)
(* setters gives, where a copy takes over the history of the original.         *)
EXTENDS Options, TLC
CONSTANTS Places, MaxOps
VARIABLES h, hist, n
vars == <<h, hist, n>>
Ops == {[op |-> "new", s |-> s] : s \in Places} \cup {[op |-> "copy", s |-> s, d |-> d] : s \in Places, d \in Places}
       \cup {[op |-> o, s |-> s, v |-> v] : o \in {"min", "max"}, s \in Places, v \in {0, 1}}
       \cup {[op |-> "suite", s |-> s, v |-> v] : s \in Places, v \in {0, 2}}
       \cup {[op |-> o, s |-> s, v |-> v] : o \in {"addr", "local", "target"}, s \in Places, v \in {"x", "y"}}
       \cup {[op |-> "drop", s |-> s] : s \in Places}
Init == h = <<>> /\ hist = <<>> /\ n = 0
Do(op) == /\ (op.op \in Setters \cup {"drop", "copy"} => op.s \in DOMAIN h)
          /\ h' = Apply(h, op) /\ n' = n + 1
          /\ hist' = CASE op.op = "new" -> Put(hist, op.s, <<>>)
                       [] op.op = "copy" -> Put(hist, op.d, hist[op.s])
                       [] op.op = "drop" -> Drop(hist, op.s)
                       [] OTHER -> [hist EXCEPT ![op.s] = Append(@, op)]
Next == n < MaxOps /\ \E op \in Ops : Do(op)
Spec == Init /\ [][Next]_vars
Last(q, o, d) == LET I == {i \in 1..Len(q) : q[i].op = o} IN IF I = {} THEN d ELSE q[CHOOSE i \in I : \A j \in I : j <= i].v
RECURSIVE Picks(_, _)
Picks(q, o) == IF q = <<>> THEN <<>> ELSE (IF Head(q).op = o THEN <<Head(q).v>> ELSE <<>>) \o Picks(Tail(q), o)
All(q, o) == {q[i].v : i \in {j \in 1..Len(q) : q[j].op = o}}
OwnHistory == /\ DOMAIN h = DOMAIN hist
              /\ \A s \in DOMAIN h : h[s] = [min |-> Last(hist[s], "min", 1), max |-> Last(hist[s], "max", 1), addr |-> Last(hist[s], "addr", ""),
                                             suites |-> Picks(hist[s], "suite"), locals |-> All(hist[s], "local"), targets |-> All(hist[s], "target")]
Others == [][\A s \in DOMAIN h : h'#h => Cardinality({x \in DOMAIN h : x \in DOMAIN h' /\ h'[x] # h[x]}) <= 1]_vars
=============================================================================
