-------------------------------- MODULE Hkdf --------------------------------
(* HKDF-Expand (RFC 5869, 2.3) as a relation on lengths; the bytes themselves  *)
(* are compared with an independent implementation by digest.                  *)
EXTENDS Integers, Sequences
HashLen(h) == IF h = 1 THEN 48 ELSE 32
MaxBlocks == 255
\* op: [h, pl, ol, fired]: hash, key length, output length, library call failed
HkdfLegal(o) == o.h \in {0, 1} /\ o.pl >= HashLen(o.h) /\ o.ol <= MaxBlocks * HashLen(o.h)
HkdfOk(o) == HkdfLegal(o) /\ ~o.fired
SuiteHash == [v \in 0..2 |-> IF v = 1 THEN 384 ELSE 256]
=============================================================================
