------------------------------- MODULE Context -------------------------------
(* S2AContext and its serialized form. On the wire a field that has the        *)
(* default value may be left out; fields may come in any order; unknown fields *)
(* are skipped.                                                                *)
EXTENDS Integers, Sequences
Serializable(c) == c.ver \in {0, 1} /\ c.su \in {0, 1, 2}
=============================================================================
