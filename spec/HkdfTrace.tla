------------------------------ MODULE HkdfTrace -----------------------------
(* Calls recorded from the real HKDF against Hkdf.                             *)
EXTENDS Hkdf, FiniteSets, TLC, Json, IOUtils
VARIABLES l, cs, viol, cnt
TraceData == ndJsonDeserialize(IOEnv.TRACE)
If(c, p, why) == IF c THEN {<<p, why>>} ELSE {}
KFresh(e) == [ss |-> {0}, bad |-> {}]
KCrash(e) == {<<p, e.kind>> : p \in {"C12", "C13", "C25"}}
\* the hash of each ciphersuite (RFC 8446, B.4)
KHash(s, e) ==
    {[s |-> s, live |-> TRUE, bad |->
       If(e.ok # (~e.null /\ e.v \in DOMAIN SuiteHash), "C13", "hash of a ciphersuite given or refused wrongly")
       \cup If(e.ok /\ ~e.null /\ e.v \in DOMAIN SuiteHash /\ e.h # SuiteHash[e.v], "C13", "wrong hash for the ciphersuite")]}
KStep(s, e) ==
    IF e.op = "hash" THEN KHash(s, e) ELSE
    {[s |-> s, live |-> TRUE, bad |->
       IF HkdfOk(e)
       THEN If(~e.ok, "C12", "legal derivation refused")
            \cup If(e.ok /\ (e.dig # e.ref \/ e.n # e.ol), "C12", "derived bytes differ")
            \cup If(~e.inputs, "C12", "input modified")
       ELSE If(e.ok /\ ~HkdfLegal(e), "C12", "illegal derivation accepted")
            \cup If(e.ok /\ e.fired, "C25", "derivation succeeded although the library failed")]}
R == INSTANCE TraceRun WITH Fresh <- KFresh, Step <- KStep, CrashProps <- KCrash, Trace <- TraceData
Init == R!TInit
Next == R!TNext
=============================================================================
