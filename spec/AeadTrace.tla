------------------------------ MODULE AeadTrace -----------------------------
(* Traces recorded from the real AEAD crypters against Aead.                   *)
EXTENDS Aead, FiniteSets, TLC, Json, IOUtils
VARIABLES l, cs, viol, cnt
TraceData == ndJsonDeserialize(IOEnv.TRACE)
If(c, p, why) == IF c THEN {<<p, why>>} ELSE {}

\* the state is only whether there is a crypter
AFresh(e) ==
    LET legal == e.keylen \in KeyLens(e.suite) IN
    [ss |-> {[have |-> e.ok]},
     bad |-> If(legal /\ ~e.fired /\ ~e.ok, "C11", "legal key size refused")
             \cup If(legal /\ ~e.fired /\ ~e.ok, "C10", "legal key size refused")
             \cup If(~legal /\ e.ok, "C11", "wrong key size accepted")
             \cup If(e.fired /\ e.ok, "C25", "crypter created although the library failed")
             \cup If(e.ok /\ (e.kl # e.keylen \/ e.nl # NonceLen \/ e.tl # TagLen), "C11", "advertised sizes wrong")]
ACrash(e) == {<<p, e.kind>> : p \in {"C10", "C11", "C25", "C26"}}

Good(s, b) == {[s |-> s, bad |-> b, live |-> TRUE]}

AEnc(s, e) ==
    IF ~s.have THEN Good(s, {})
    ELSE IF EncOk(e)
    THEN Good(s, If(~e.ok, "C10", "legal encryption failed")
                 \cup If(~e.ok, "C11", "legal encryption failed")
                 \cup If(e.ok /\ e.w # EncLen(e), "C11", "wrong number of bytes written")
                 \cup If(e.ok /\ e.dig # e.ref, "C10", "ciphertext differs")
                 \cup If(e.ok /\ ~e.tail, "C11", "wrote beyond the result")
                 \cup If(e.changed, "C11", "input modified"))
    ELSE Good(s, If(e.ok /\ ~EncLegal(e), "C11", "illegal encryption accepted")
                 \cup If(e.ok /\ e.fired, "C25", "encryption succeeded although the library failed")
                 \cup If(~e.ok /\ e.w # 0, "C11", "failure reports bytes written")
                 \cup If(~e.ok /\ e.w # 0 /\ e.fired, "C25", "failure reports bytes written"))
ADec(s, e) ==
    IF ~s.have THEN Good(s, {})
    ELSE IF DecOk(e)
    THEN Good(s, If(~e.ok, "C10", "legal decryption failed")
                 \cup If(~e.ok, "C11", "legal decryption failed")
                 \cup If(e.ok /\ e.w # DecLen(e), "C11", "wrong number of bytes written")
                 \cup If(e.ok /\ e.dig # e.ref, "C10", "plaintext differs")
                 \cup If(e.ok /\ ~e.tail, "C11", "wrote beyond the result")
                 \cup If(e.changed, "C11", "input modified"))
    ELSE Good(s, If(e.ok /\ ~DecLegal(e), "C11", "illegal decryption accepted")
                 \cup If(e.ok /\ DecLegal(e) /\ e.mut, "C10", "inputs that do not belong together accepted")
                 \cup If(e.ok /\ DecLegal(e) /\ e.mut, "C04", "inputs that do not belong together accepted")
                 \cup If(e.ok /\ e.fired, "C25", "decryption succeeded although the library failed")
                 \cup If(~e.ok /\ e.w # 0, "C11", "failure reports bytes written")
                 \cup If(~e.ok /\ e.w # 0 /\ e.fired, "C25", "failure reports bytes written")
                 \cup If(~e.ok /\ e.leak > 0, "C11", "unauthenticated plaintext left in the output")
                 \cup If(~e.ok /\ e.leak > 0, "C04", "unauthenticated plaintext left in the output")
                 \cup If(~e.ok /\ e.leak > 0 /\ e.fired, "C25", "unauthenticated plaintext left in the output"))
AStep(s, e) ==
    CASE e.op = "enc" -> AEnc(s, e)
      [] e.op = "dec" -> ADec(s, e)
      [] e.op = "sizes" -> Good(s, If(e.have /\ (e.mp # MaxPlaintext(e.n) \/ e.mc # MaxCiphertext(e.n)), "C11", "advertised lengths wrong"))
      [] OTHER -> Good(s, {<<"C99", "unknown event">>})
R == INSTANCE TraceRun WITH Fresh <- AFresh, Step <- AStep, CrashProps <- ACrash, Trace <- TraceData
Init == R!TInit
Next == R!TNext
=============================================================================
