------------------------------- MODULE Ticket --------------------------------
(* The request that hands resumption tickets to the S2A.                       *)
EXTENDS Integers, Sequences
Preparable(null, id) == ~null /\ id # "n:"
Request(cid, id, tickets) == <<cid, id, tickets>>
=============================================================================
