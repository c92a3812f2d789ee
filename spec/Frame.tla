-------------------------------- MODULE Frame -------------------------------
(* The frame protector: messages are cut into records, concatenated records    *)
(* are taken apart again, buffers come from the caller's allocator. Built on   *)
(* Record; a call is a sequence of record layer steps.                         *)
EXTENDS Record
MaxRecord == MaxPlain + Overhead
RecordsFor(n) == IF n = 0 THEN 1 ELSE (n + MaxPlain - 1) \div MaxPlain
\* content length of record i of RecordsFor(n)
RecordLen(n, i) == IF i < RecordsFor(n) THEN MaxPlain ELSE n - (RecordsFor(n) - 1) * MaxPlain
ProtectedLen(n) == n + RecordsFor(n) * Overhead
UnprotectedLen(n) == IF n < Overhead THEN 0 ELSE n - HdrBytes

RECURSIVE OutAfter(_, _)
OutAfter(h, k) == IF k = 0 THEN h ELSE OutAfter(IF Usable(h) THEN Used(h) ELSE h, k - 1)
\* the first record that cannot be sent (0: all can)
RECURSIVE Stuck(_, _, _)
Stuck(h, i, n) == IF i > n THEN 0 ELSE IF ~Usable(h) THEN i ELSE Stuck(Used(h), i + 1, n)

\* Takes records rs one after the other from state s, up to the first that is
\* not accepted: states afterwards, success ("yes", "no", "any"), its class.
RECURSIVE TakeAll(_, _)
TakeAll(s, rs) ==
    IF rs = <<>> THEN [ss |-> {s}, res |-> "yes", why |-> "app"]
    ELSE LET r == Head(rs)
             w == RecvOk(s, r)
             nx == RecvNext(s, r, Must(s, r)) IN
         IF w # "yes" THEN [ss |-> nx, res |-> w, why |-> Class(s, r)]
         ELSE TakeAll(CHOOSE x \in nx : TRUE, Tail(rs))
=============================================================================
