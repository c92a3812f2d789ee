------------------------------ MODULE FrameMC -------------------------------
(* Taking concatenated records apart and buffer ownership: a stream of records *)
(* (each good or not authentic), possibly with a partial record at the end,    *)
(* cut into any buffers, unprotected record by record with buffers from an     *)
(* allocator; and cutting a message into records. Small header and sizes.      *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS H,        \* header bytes
          Max,      \* content bytes in a record
          MaxRecs, MaxBufs, MaxMsg
VARIABLES recs, part, bufs, pc, bi, bo, k, live, returned, freed, out, msg, emitted, left
vars == <<recs, part, bufs, pc, bi, bo, k, live, returned, freed, out, msg, emitted, left>>

RECURSIVE Sum(_)
Sum(s) == IF s = <<>> THEN 0 ELSE Head(s) + Sum(Tail(s))
Seqs(S, n) == UNION {[1..m -> S] : m \in 0..n}
StreamLen(rs, p) == Sum([i \in 1..Len(rs) |-> H + rs[i].n]) + p
Layouts(total) == {b \in Seqs(0..total, MaxBufs) : Sum(b) = total}

Init == /\ recs \in Seqs([n : 0..Max, good : BOOLEAN], MaxRecs)
        /\ part \in 0..(H + 1)
        /\ bufs \in Layouts(StreamLen(recs, part))
        /\ msg \in 0..MaxMsg
        /\ pc = "start" /\ bi = 1 /\ bo = 0 /\ k = 0
        /\ live = {} /\ returned = {} /\ freed = {} /\ out = "none"
        /\ emitted = <<>> /\ left = -1

Un == <<recs, part, bufs, msg, emitted, left>>
\* position of the cursor in the stream
RECURSIVE Pre(_)
Pre(i) == IF i <= 1 THEN 0 ELSE bufs[i - 1] + Pre(i - 1)
Pos == Pre(bi) + bo
Total == StreamLen(recs, part)
\* n bytes further from <<i, o>>; <<0, 0>> when there are not enough
RECURSIVE Adv(_, _, _)
Adv(i, o, n) ==
    IF n = 0 THEN <<i, o>>
    ELSE IF i > Len(bufs) THEN <<0, 0>>
    ELSE IF o >= bufs[i] THEN Adv(i + 1, 0, n)
    ELSE LET m == IF bufs[i] - o < n THEN bufs[i] - o ELSE n IN
         IF o + m = bufs[i] THEN Adv(i + 1, 0, n - m) ELSE Adv(i, o + m, n - m)

Fail == /\ out' = "error" /\ pc' = "done"
        /\ freed' = freed \cup live \cup returned /\ live' = {} /\ returned' = {}
        /\ UNCHANGED <<bi, bo, k>>
Head1 ==
    /\ pc = "start"
    /\ IF Total = 0 \/ (Pos = Total /\ k > 0)
       THEN /\ out' = (IF k > 0 THEN "ok" ELSE "error") /\ pc' = "done"
            /\ UNCHANGED <<bi, bo, k, live, returned, freed>>
       ELSE LET h == Adv(bi, bo, H) IN
            IF h[1] = 0 \/ k = Len(recs) THEN Fail
            ELSE LET p == Adv(h[1], h[2], recs[k + 1].n) IN
                 IF p[1] = 0 THEN Fail
                 ELSE /\ bi' = p[1] /\ bo' = p[2] /\ k' = k + 1
                      /\ live' = {k + 1} /\ pc' = "open" /\ UNCHANGED <<returned, freed, out>>
    /\ UNCHANGED Un
Open ==
    /\ pc = "open"
    /\ IF recs[k].good
       THEN /\ returned' = returned \cup live /\ live' = {} /\ pc' = "start" /\ UNCHANGED <<bi, bo, k, freed, out>>
       ELSE Fail
    /\ UNCHANGED Un
\* the other direction: one record at a time
Emit ==
    /\ left # 0 \/ emitted = <<>>
    /\ LET rest == IF left = -1 THEN msg ELSE left
           n == IF rest < Max THEN rest ELSE Max IN
       /\ emitted' = Append(emitted, n) /\ left' = rest - n
    /\ UNCHANGED <<recs, part, bufs, pc, bi, bo, k, live, returned, freed, out, msg>>
Next == Head1 \/ Open \/ (pc = "done" /\ Emit)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

AllGood == \A i \in 1..Len(recs) : recs[i].good
\* C15: success exactly for complete good records, for every layout
Exact == /\ out = "ok" => AllGood /\ part = 0 /\ recs # <<>> /\ k = Len(recs) /\ Pos = Total
         /\ out = "error" => ~AllGood \/ part # 0 \/ recs = <<>>
\* the cursor stands at the border of record k
Aligned == pc \in {"start", "open"} => Pos = Sum([i \in 1..k |-> H + recs[i].n])
\* C14
Owners == /\ live \cap freed = {} /\ returned \cap freed = {} /\ live \cap returned = {}
          /\ pc = "done" => live = {} /\ (IF out = "ok" THEN returned = 1..k /\ freed = {} ELSE returned = {} /\ freed = 1..k)
\* C15, C02
Minimal == left = 0 => /\ Sum(emitted) = msg
                       /\ Len(emitted) = (IF msg = 0 THEN 1 ELSE (msg + Max - 1) \div Max)
                       /\ \A i \in 1..(Len(emitted) - 1) : emitted[i] = Max
Terminates == <>(pc = "done" /\ left = 0)
=============================================================================
