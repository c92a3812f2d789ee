------------------------------- MODULE Options -------------------------------
(* S2AOptions as values in numbered places. Identities are opaque values in    *)
(* which kind and text both count.                                             *)
EXTENDS Integers, Sequences, FiniteSets
Fresh0 == [min |-> 1, max |-> 1, addr |-> "", suites |-> <<>>, locals |-> {}, targets |-> {}]
\* h: function from places to options
Put(h, s, v) == [x \in DOMAIN h \cup {s} |-> IF x = s THEN v ELSE h[x]]
Drop(h, s) == [x \in DOMAIN h \ {s} |-> h[x]]
Apply(h, op) ==
    CASE op.op = "new"    -> Put(h, op.s, Fresh0)
      [] op.op = "copy"   -> IF op.s \in DOMAIN h THEN Put(h, op.d, h[op.s]) ELSE h
      [] op.op = "drop"   -> Drop(h, op.s)
      [] op.op = "min"    -> [h EXCEPT ![op.s].min = op.v]
      [] op.op = "max"    -> [h EXCEPT ![op.s].max = op.v]
      [] op.op = "addr"   -> [h EXCEPT ![op.s].addr = op.v]
      [] op.op = "suite"  -> [h EXCEPT ![op.s].suites = Append(@, op.v)]
      [] op.op = "local"  -> [h EXCEPT ![op.s].locals = @ \cup {op.v}]
      [] op.op = "target" -> [h EXCEPT ![op.s].targets = @ \cup {op.v}]
Setters == {"min", "max", "addr", "suite", "local", "target"}
=============================================================================
