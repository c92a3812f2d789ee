------------------------------ MODULE ContextMC ------------------------------
(* Round trip of the wire form: writing the fields of a context in any order,  *)
(* defaults left out or not, with unknown fields, one read step per field.     *)
EXTENDS Context, FiniteSets, TLC
CONSTANTS Texts, MaxUnknown
Ids == {"n:"} \cup {k \o t : k \in {"s:", "h:", "u:"}, t \in Texts}
Default == [app |-> "", ver |-> 0, su |-> 0, pid |-> "n:", lid |-> "n:", pfp |-> "", lfp |-> "", rsm |-> FALSE]
VARIABLES c, todo, wire, read, back, unk
vars == <<c, todo, wire, read, back, unk>>
Init == /\ c \in [app : Texts, ver : 0..2, su : {0, 2, 3}, pid : Ids, lid : Ids, pfp : Texts, lfp : {""}, rsm : BOOLEAN]
        /\ Serializable(c) /\ todo = DOMAIN c /\ wire = <<>> /\ read = FALSE /\ back = Default /\ unk = 0
Write(f) == /\ ~read /\ f \in todo /\ todo' = todo \ {f}
            /\ \/ wire' = Append(wire, <<f, c[f]>>)
               \/ c[f] = Default[f] /\ wire' = wire
            /\ UNCHANGED <<c, read, back, unk>>
Unknown == ~read /\ unk < MaxUnknown /\ unk' = unk + 1 /\ wire' = Append(wire, <<"unknown", 0>>) /\ UNCHANGED <<c, todo, read, back>>
Turn == ~read /\ todo = {} /\ read' = TRUE /\ UNCHANGED <<c, todo, wire, back, unk>>
Read == /\ read /\ wire # <<>> /\ wire' = Tail(wire)
        /\ back' = IF Head(wire)[1] \in DOMAIN back THEN [back EXCEPT ![Head(wire)[1]] = Head(wire)[2]] ELSE back
        /\ UNCHANGED <<c, todo, read, unk>>
\* the order of the fields is fixed by the first one not yet written or free
Next == (LET f == CHOOSE x \in todo : TRUE IN todo # {} /\ Write(f)) \/ Unknown \/ Turn \/ Read
Spec == Init /\ [][Next]_vars
RoundTrip == read /\ wire = <<>> => back = c
=============================================================================
