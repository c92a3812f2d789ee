------------------------------- MODULE AeadMC -------------------------------
(* Streaming decryption of ciphertext and tag over an arbitrary list of        *)
(* buffers: every layout of up to MaxSegs buffers with MaxLen bytes in total,  *)
(* every output capacity. Bytes are represented by their positions. The        *)
(* invariants say that the outcome depends only on the concatenation, that     *)
(* nothing is written outside the output or the tag, and that a failure leaves *)
(* nothing behind.                                                             *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS T, MaxLen, MaxSegs
VARIABLES segs, cap, authentic, i, pos, out, tag, status
vars == <<segs, cap, authentic, i, pos, out, tag, status>>

RECURSIVE Sum(_)
Sum(s) == IF s = <<>> THEN 0 ELSE Head(s) + Sum(Tail(s))
Layouts == {s \in UNION {[1..n -> 0..MaxLen] : n \in 0..MaxSegs} : Sum(s) <= MaxLen}
Total == Sum(segs)
Body == Total - T            \* ciphertext bytes

Init == /\ segs \in Layouts /\ cap \in 0..MaxLen /\ authentic \in BOOLEAN
        /\ i = 1 /\ pos = 0 /\ out = <<>> /\ tag = <<>> /\ status = "run"

Fail == status' = "error" /\ out' = <<>> /\ UNCHANGED <<segs, cap, authentic, i, pos, tag>>
Range(a, b) == [k \in 1..(b - a) |-> a + k]

\* one buffer: first its ciphertext part, then its tag part
Take ==
    /\ status = "run" /\ Total >= T /\ i <= Len(segs)
    /\ LET n == segs[i]
           c == IF pos + n <= Body THEN n ELSE IF pos < Body THEN Body - pos ELSE 0
       IN IF Len(out) + c > cap THEN Fail
          ELSE /\ out' = out \o Range(pos, pos + c)
               /\ tag' = tag \o Range(pos + c, pos + n)
               /\ pos' = pos + n /\ i' = i + 1
               /\ UNCHANGED <<segs, cap, authentic, status>>
TooShort == status = "run" /\ Total < T /\ Fail
Done == /\ status = "run" /\ Total >= T /\ i > Len(segs)
        /\ IF authentic THEN status' = "ok" /\ UNCHANGED <<segs, cap, authentic, i, pos, out, tag>> ELSE Fail
Next == Take \/ TooShort \/ Done
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

LayoutIndependent ==
    status = "ok" => out = Range(0, Body) /\ tag = Range(Body, Total)
InBounds == Len(out) <= cap /\ Len(tag) <= T
ExactlyWhenLegal ==
    /\ status = "ok" => authentic /\ Total >= T /\ cap >= Body
    /\ status = "error" => ~(authentic /\ Total >= T /\ cap >= Body)
FailsClean == status = "error" => out = <<>>
Terminates == <>(status # "run")
=============================================================================
