---------------------------- MODULE ResourcesMC ----------------------------
(* A connection that takes blocks of memory for what it is doing, may fail at  *)
(* any point, and owns some blocks afterwards. Whatever the history, between   *)
(* operations it owns exactly what its abstract state needs; nothing is left   *)
(* when it is gone.                                                            *)
EXTENDS Integers, FiniteSets, Resources
CONSTANTS MaxTickets, Steps
VARIABLES open, tickets, partial, own, tmp, op, seen
vars == <<open, tickets, partial, own, tmp, op, seen>>
Ops == {"create", "rekey", "protect", "unprotect", "fragment", "ticket", "handover"}
Abs == <<open, tickets, partial>>

Init == /\ open = FALSE /\ tickets = 0 /\ partial = FALSE /\ own = 0 /\ tmp = 0 /\ op = "none" /\ seen = {}

Begin(o) == /\ op = "none"
            /\ open = (o # "create")
            /\ (o = "handover") => (tickets > 0 /\ ~partial)
            /\ (o = "ticket") => tickets < MaxTickets
            /\ op' = o /\ UNCHANGED <<open, tickets, partial, own, tmp, seen>>
Take == /\ op # "none" /\ tmp < Steps /\ tmp' = tmp + 1 /\ UNCHANGED <<open, tickets, partial, own, op, seen>>
(* a failure at any point: what was taken goes, what was owned stays *)
Fail == /\ op # "none" /\ tmp' = 0 /\ op' = "none" /\ UNCHANGED <<open, tickets, partial, own, seen>>
Done == /\ op # "none" /\ op' = "none" /\ tmp' = 0 /\ UNCHANGED seen
        /\ CASE op = "create"   -> tmp >= 2 /\ open' = TRUE /\ own' = own + 2 /\ UNCHANGED <<tickets, partial>>
             [] op = "rekey"    -> tmp >= 1 /\ own' = own + 1 - 1 /\ UNCHANGED <<open, tickets, partial>>
             [] op = "fragment" -> tmp >= 1 /\ partial' = TRUE /\ own' = own + (IF partial THEN 0 ELSE 1) /\ UNCHANGED <<open, tickets>>
             [] op = "ticket"   -> tmp >= 1 /\ tickets' = tickets + 1 /\ partial' = FALSE
                                   /\ own' = own + 1 - (IF partial THEN 1 ELSE 0) /\ UNCHANGED open
             [] op = "handover" -> tickets' = 0 /\ own' = own - tickets /\ UNCHANGED <<open, partial>>
             [] OTHER           -> UNCHANGED <<open, tickets, partial, own>>
Destroy == /\ op = "none" /\ open /\ open' = FALSE /\ tickets' = 0 /\ partial' = FALSE /\ own' = 0 /\ UNCHANGED <<tmp, op, seen>>
Measure == /\ op = "none" /\ seen' = seen \cup {<<Abs, own + tmp>>} /\ UNCHANGED <<open, tickets, partial, own, tmp, op>>
Next == (\E o \in Ops : Begin(o)) \/ Take \/ Fail \/ Done \/ Destroy \/ Measure
Spec == Init /\ [][Next]_vars /\ WF_vars(Take \/ Done \/ Fail)

Exact == op = "none" => (tmp = 0 /\ own = Owned(open, tickets, partial))
Bounded == own + tmp <= 2 + MaxTickets + 1 + Steps
NothingLeft == (op = "none" /\ ~open) => own + tmp = 0
(* repeating a history comes back to the same level: no level list of visits   *)
(* to one abstract state can grow                                              *)
SameLevel == \A x, y \in seen : x[1] = y[1] => x[2] = y[2]
NoGrowth == \A x \in seen : ~Grows([i \in 1..6 |-> x[2]])
OpsEnd == (op # "none") ~> (op = "none")
=============================================================================
