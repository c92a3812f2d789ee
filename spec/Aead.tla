-------------------------------- MODULE Aead --------------------------------
(* Authenticated encryption as a pure function of its arguments: an operation  *)
(* on a crypter has no memory of earlier ones. Cryptography is abstract: the   *)
(* arguments say whether the four inputs of a decryption were produced         *)
(* together (mut = FALSE), and the outcome says which bytes come out.          *)
EXTENDS Integers, Sequences
TagLen   == 16
NonceLen == 12
KeyLens(suite) == IF suite = 2 THEN {32} ELSE {16, 32}

\* op: [nl, null, in, cap, mut, fired] - nonce length, a missing component,
\* input length, output capacity, inputs do not belong together, a crypto
\* library call failed
EncLegal(o) == o.nl = NonceLen /\ ~o.null /\ o.cap >= o.in + TagLen
DecLegal(o) == o.nl = NonceLen /\ ~o.null /\ o.in >= TagLen /\ o.cap >= o.in - TagLen
EncOk(o) == EncLegal(o) /\ ~o.fired
DecOk(o) == DecLegal(o) /\ ~o.mut /\ ~o.fired
EncLen(o) == o.in + TagLen
DecLen(o) == o.in - TagLen
MaxPlaintext(n) == IF n < TagLen THEN 0 ELSE n - TagLen
MaxCiphertext(n) == n + TagLen
=============================================================================
