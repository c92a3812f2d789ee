------------------------------- MODULE HkdfMC -------------------------------
(* The block iteration of HKDF-Expand with symbolic bytes: byte j of block i   *)
(* is <<i, j>> computed from block i-1, the info and the counter byte. The     *)
(* output vector may be the same object as the key (aliasing): the key is read *)
(* once, before anything is written. Invariants: the output is the prefix of   *)
(* T(1) T(2) ..., each block chains the previous one, and counters stay in one *)
(* byte.                                                                       *)
EXTENDS Integers, Sequences, TLC
CONSTANTS HL, MaxOut, MaxBlk
VARIABLES n, alias, i, chain, out, keyReads, status
vars == <<n, alias, i, chain, out, keyReads, status>>
Blocks == (n + HL - 1) \div HL
Init == /\ n \in 0..MaxOut /\ alias \in BOOLEAN /\ i = 0 /\ chain = <<>> /\ out = <<>>
        /\ keyReads = 0 /\ status = "start"
Start == /\ status = "start"
         /\ IF Blocks > MaxBlk THEN status' = "error" /\ UNCHANGED keyReads
            ELSE status' = "run" /\ keyReads' = Len(out)
         /\ UNCHANGED <<n, alias, i, chain, out>>
\* T(i+1) from T(i); only the bytes still needed are copied
Block == /\ status = "run" /\ i < Blocks
         /\ LET todo == IF Len(out) + HL > n THEN n - Len(out) ELSE HL IN
            /\ out' = out \o [j \in 1..todo |-> <<i + 1, j>>]
            /\ chain' = Append(chain, <<i, i + 1>>)
         /\ i' = i + 1
         /\ UNCHANGED <<n, alias, keyReads, status>>
Done == /\ status = "run" /\ i = Blocks /\ status' = "ok" /\ UNCHANGED <<n, alias, i, chain, out, keyReads>>
Next == Start \/ Block \/ Done
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Prefix == status = "ok" => out = [k \in 1..n |-> <<((k - 1) \div HL) + 1, ((k - 1) % HL) + 1>>]
Chained == \A k \in 1..Len(chain) : chain[k] = <<k - 1, k>>
CounterFits == i <= MaxBlk
NeverTooLong == Len(out) <= n
KeyReadBeforeWrite == keyReads = 0
RefusedExactly == (status = "error") => n > MaxBlk * HL
Terminates == <>(status \in {"ok", "error"})
=============================================================================
