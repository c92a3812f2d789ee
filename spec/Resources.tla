----------------------------- MODULE Resources -----------------------------
(* Memory: what a connection owns is a function of its abstract state, so a    *)
(* history that is repeated does not need more and more of it. levels[i] is    *)
(* the number of bytes in use after the i-th repetition. Caches and buffers    *)
(* may fill up at first, and levels may go up and down; they grow when the     *)
(* last third of the repetitions reaches a new maximum.                        *)
LOCAL INSTANCE Integers
LOCAL INSTANCE Sequences
LOCAL Top(ls, a, b) == LET S == {ls[i] : i \in a..b} IN CHOOSE x \in S : \A y \in S : y <= x
Grows(ls) == LET n == Len(ls) m == (2 * n) \div 3 IN n >= 6 /\ Top(ls, m + 1, n) > Top(ls, 1, m)

(* What an object owns: one key context per direction while it is open, the    *)
(* tickets it has not handed over yet and the message it is in the middle of.  *)
Owned(open, tickets, partial) == IF ~open THEN 0 ELSE 2 + tickets + (IF partial THEN 1 ELSE 0)
=============================================================================
