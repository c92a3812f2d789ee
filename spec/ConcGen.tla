------------------------------ MODULE ConcGen -------------------------------
(* Generator: for pairs of short thread programs, all schedules with up to two *)
(* preemptions, the first after N1 points of one thread, the second after N2   *)
(* points of the other.                                                        *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS N1, N2
VARIABLES st, op
Init == st = "s" /\ op = <<>>
Out == {"a:5", "a:300;a:0", "k", "k;a:7", "h:3;k;a:4"}
Inb == {"U:app.20;U:app.3", "U:ku.1;U:app.9", "U:tk.30;U:app.4", "U:tk.3;U:tk.2;U:tk.3;U:tk.3;U:tk.1", "U:bad.5"}
FOut == {"P:10", "P:40000", "p:20", "p:33000", "P:0;P:5"}
FInb == {"U:app.5", "U:app.5+ku.1+app.7", "U:tk.9+app.3", "u:app.8", "U:ku.1;U:app.2", "U:bad.9"}
PX == {"s:0", "s:7", "r:f:9", "r:r:2", "r:e", "f", "s:0;s:5", "s:3;s:4", "r:r:1;f", "f;f"}
TX == {"g", "d", "b", "g;d;b"}
\* two objects, one thread each
COut == {"a:300;a:0", "k;a:7", "U:ku.1;U:app.9", "U:tk.30;U:app.4"}
FTwo == {"P:20;P:5", "p:20", "U:app.5+ku.1+app.7", "u:app.8"}
PTwo == {"s:0;s:5", "s:3;s:4", "r:r:1;f", "r:f:9"}
Pairs == ({"crypter2"} \X COut \X COut) \cup ({"fp2"} \X FTwo \X FTwo) \cup ({"proxy2"} \X PTwo \X PTwo) \cup ({"crypter"} \X Out \X (Out \cup Inb)) \cup ({"fp"} \X FOut \X (FOut \cup FInb)) \cup ({"proxy"} \X PX \X PX) \cup ({"tok"} \X TX \X TX)
Next == /\ st' = st
        /\ \E p \in Pairs, f \in {0, 1}, n \in N1, m \in N2 : op' = [kind |-> p[1], a |-> p[2], b |-> p[3], f |-> f, n |-> n, m |-> m]
Edge == PrintT(ToJson([from |-> st, op |-> op', to |-> st']))
View == st
=============================================================================
