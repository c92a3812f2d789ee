-------------------------------- MODULE Runs --------------------------------
(* Byte strings in run-length form: a sequence of <<byte, count>> pairs with   *)
(* count > 0 and neighbouring bytes different (canonical form). This keeps     *)
(* messages of up to 2^24 bytes cheap for TLC.                                 *)
EXTENDS Integers, Sequences

RECURSIVE RLen(_)
RLen(r) == IF r = <<>> THEN 0 ELSE Head(r)[2] + RLen(Tail(r))

\* append n copies of byte b
Push(r, b, n) ==
    IF n = 0 THEN r
    ELSE IF r # <<>> /\ r[Len(r)][1] = b
         THEN [r EXCEPT ![Len(r)] = <<b, @[2] + n>>]
         ELSE Append(r, <<b, n>>)

\* r without its first n bytes (n <= RLen(r))
RECURSIVE Drop(_, _)
Drop(r, n) ==
    IF n = 0 THEN r
    ELSE IF Head(r)[2] <= n THEN Drop(Tail(r), n - Head(r)[2])
         ELSE <<<<Head(r)[1], Head(r)[2] - n>>>> \o Tail(r)

\* canonical runs of a plain sequence of bytes
RECURSIVE OfBytes(_)
OfBytes(bs) == IF bs = <<>> THEN <<>>
               ELSE Push(OfBytes(SubSeq(bs, 1, Len(bs) - 1)), bs[Len(bs)], 1)
=============================================================================
