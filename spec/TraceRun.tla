------------------------------ MODULE TraceRun ------------------------------
(* Generic monitor: reads a recorded trace (one JSON object per line) and      *)
(* follows it with the specification. Step(s, e) is the set of possible        *)
(* [s |-> next state, bad |-> violated properties, live |-> BOOLEAN] for event *)
(* e in state s; a set of candidate states is carried along. Events with       *)
(* op = "reset" start a new segment (Fresh(e) gives its states); after an      *)
(* event that no candidate explains the rest of the segment is skipped.        *)
(* Two rules hold for every family: memory stays bounded when a history is     *)
(* repeated (Resources), and nothing said tells a secret (Secrecy).            *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Resources, Secrecy
CONSTANTS Fresh(_), Step(_, _), CrashProps(_), Trace
VARIABLES l, cs, viol, cnt

TInit == /\ l = 1 /\ cs = {} /\ viol = <<>> /\ cnt = [checked |-> 0, skipped |-> 0, segments |-> 0]

Add(i, ps) == IF ps = {} THEN viol ELSE Append(viol, <<i, ps>>)

Consume ==
    /\ l <= Len(Trace)
    /\ l' = l + 1
    /\ LET e == Trace[l] IN
       CASE e.op = "loop" ->
              /\ viol' = Add(l, IF Grows(e.levels) THEN {<<"C27", "memory grows (" \o e.kind \o ")">>} ELSE {})
              /\ cs' = {}
              /\ cnt' = [cnt EXCEPT !.checked = @ + 1]
         [] e.op = "twin" ->
              /\ viol' = Add(l, IF Dependent(e) THEN {<<"C28", "messages depend on secrets">>} ELSE {})
              /\ cs' = {}
              /\ cnt' = [cnt EXCEPT !.checked = @ + 1]
         [] e.op = "reset" ->
              LET f == Fresh(e) IN
              /\ cs' = f.ss /\ viol' = Add(l, f.bad \cup Tells(e))
              /\ cnt' = [cnt EXCEPT !.segments = @ + 1, !.checked = @ + 1]
         [] e.op = "crash" ->
              /\ viol' = (IF cs = {} /\ e.during # "reset" THEN viol ELSE Add(l, CrashProps(e)))
              /\ cs' = {}
              /\ cnt' = [cnt EXCEPT !.checked = @ + 1]
         [] OTHER ->
              IF cs = {} THEN cs' = {} /\ viol' = Add(l, Tells(e)) /\ cnt' = [cnt EXCEPT !.skipped = @ + 1]
              ELSE LET rs == UNION {Step(s, e) : s \in cs}
                       good == {r \in rs : r.bad = {}}
                       least == CHOOSE r \in rs : \A q \in rs : Cardinality(r.bad) <= Cardinality(q.bad)
                       use == IF good # {} THEN good ELSE {r \in rs : r.bad = least.bad}
                   IN /\ cs' = {r.s : r \in {q \in use : q.live}}
                      /\ viol' = Add(l, UNION {r.bad : r \in use} \cup Tells(e))
                      /\ cnt' = [cnt EXCEPT !.checked = @ + 1]

Finish == /\ l = Len(Trace) + 1
          /\ l' = l + 1
          /\ \A i \in 1..Len(viol) : \A p \in viol[i][2] : PrintT(<<"BAD", viol[i][1], p[1], p[2]>>)
          /\ PrintT(<<"CONSUMED", Len(Trace), cnt.checked, cnt.skipped, cnt.segments, Len(viol)>>)
          /\ UNCHANGED <<cs, viol, cnt>>

TNext == Consume \/ Finish
=============================================================================
