----------------------------- MODULE ValuesTrace ----------------------------
(* Traces of the value types against Options, Tokens, Context and Ticket.      *)
EXTENDS Options, Tokens, Context, Ticket, TLC, Json, IOUtils
VARIABLES l, cs, viol, cnt
TraceData == ndJsonDeserialize(IOEnv.TRACE)
If(c, ps, why) == IF c THEN {<<p, why>> : p \in ps} ELSE {}
Live(ss, b) == {[s |-> x, bad |-> b, live |-> TRUE] : x \in ss}
Stop(s, b) == {[s |-> s, bad |-> b, live |-> FALSE]}
Go(s, ss, b) == IF b = {} THEN Live(ss, b) ELSE Stop(s, b)
Range(q) == {q[i] : i \in 1..Len(q)}

VFresh(e) == [ss |-> {[h |-> <<>>, env |-> Absent, ms |-> <<>>]}, bad |-> {}]
VCrash(e) == CASE e.during \in {"ctx", "deser", "raw"} -> {<<"C20", e.kind>>, <<"C26", e.kind>>}
               [] e.during \in {"ticket"} -> {<<"C23", e.kind>>}
               [] e.during \in {"setenv", "build", "get", "kill"} -> {<<"C22", e.kind>>}
               [] OTHER -> {<<"C21", e.kind>>}

\* the reported form of all options
Value(o) == [min |-> o.min, max |-> o.max, addr |-> o.addr, suites |-> o.suites, locals |-> Range(o.locals), targets |-> Range(o.targets)]
Dups(o) == Len(o.locals) # Cardinality(Range(o.locals)) \/ Len(o.targets) # Cardinality(Range(o.targets))
Opt(s, e) ==
    LET h2 == Apply(s.h, e)
        got == {<<e.all[i].s, Value(e.all[i].o)>> : i \in 1..Len(e.all)}
        want == {<<x, h2[x]>> : x \in DOMAIN h2} IN
    Go(s, {[s EXCEPT !.h = h2]}, If(got # want, {"C21"}, "options differ from what was set")
                                 \cup If(\E i \in 1..Len(e.all) : Dups(e.all[i].o), {"C21"}, "an identity is in a set twice"))
Ident(s, e) ==
    LET same == e.a = e.b IN
    Live({s}, If(e.ra # e.a \/ e.rb # e.b, {"C21"}, "identity is not what it was made from")
              \cup If(e.eq # same \/ e.qe # same, {"C21"}, "equality of identities wrong")
              \cup If(same /\ ~e.hash, {"C21"}, "equal identities have different hashes")
              \cup If(e.in # same, {"C21"}, "membership of identities wrong")
              \cup If(e.copy # e.a \/ e.assigned # e.a \/ ~e.copyeq, {"C21"}, "copy of an identity differs")
              \cup If(e.cstr # e.a \/ ~e.term, {"C21"}, "C string of an identity differs"))
Conv(s, e) ==
    Live({s}, If(~e.ok \/ e.r # e.a, {"C21", "C20"}, "identity changed by conversion")
              \cup If(e.none # "n:", {"C21"}, "missing identity converted to one"))
ConvEnum(s, e, max) ==
    LET good == e.v \in 0..max IN
    Live({s}, If(e.ok # good \/ e.ok2 # good, {"C21"}, "conversion of an enumeration value accepted or refused wrongly")
              \cup If(good /\ (e.r # e.v \/ e.r2 # e.v), {"C21"}, "enumeration value changed by conversion"))
\* tokens
Build(s, e) == IF ~e.ok THEN Stop(s, {<<"C22", "no token manager">>}) ELSE Live({[s EXCEPT !.ms = Built(@, e.s, s.env)]}, {})
Get(s, e) ==
    IF e.s \notin DOMAIN s.ms THEN Live({s}, {})
    ELSE LET v == s.ms[e.s] IN
         Live({s}, If(e.r # v, {"C22"}, "token is not the one at the time the manager was built")
                   \cup If(v = Absent /\ ~e.nf, {"C22"}, "missing token not reported as not found"))
\* contexts
Cx(s, e) ==
    LET good == Serializable(e.want) IN
    Live({s}, If(e.c # e.want, {"C20", "C19"}, "context does not report what it was made from")
              \cup If(good # e.ok, {"C20"}, "context serialized or refused wrongly")
              \cup (IF e.ok /\ good THEN
                   If(~e.wf \/ e.w # e.want, {"C20"}, "serialized form differs from the context")
                   \cup (IF ~e.dok THEN If(TRUE, {"C20"}, "serialized context cannot be read") ELSE If(e.d # e.want, {"C20"}, "context changed by serialization")) ELSE {}))
Deser(s, e) ==
    LET good == ~e.bad /\ Serializable(e.want) IN
    Live({s}, If(good # e.ok, {"C20"}, IF good THEN "serialized context refused" ELSE "bad bytes accepted as a context")
              \cup (IF good /\ e.ok THEN If(e.d # e.want, {"C20"}, "context differs from its serialized form") ELSE {}))
\* tickets
Tk(s, e) ==
    LET good == Preparable(e.null, e.id) IN
    Live({s}, If(good # e.ok, {"C23"}, "ticket request made or refused wrongly")
              \cup If(~e.kept, {"C23"}, "tickets changed")
              \cup (IF good /\ e.ok THEN
                   If(~e.wf \/ e.kinds # "4.", {"C23"}, "not one well-formed ticket request")
                   \cup If(<<e.rcid, e.rid, e.rtk>> # Request(e.cid, e.id, e.tk), {"C23"}, "ticket request differs from what was given") ELSE {}))

VStep(s, e) ==
    CASE e.op \in Setters \cup {"new", "copy", "drop"} -> Opt(s, e)
      [] e.op = "ident" -> Ident(s, e)
      [] e.op = "conv" -> Conv(s, e)
      [] e.op = "convver" -> ConvEnum(s, e, 1)
      [] e.op = "convsuite" -> ConvEnum(s, e, 2)
      [] e.op = "setenv" -> Live({[s EXCEPT !.env = e.v]}, {})
      [] e.op = "build" -> Build(s, e)
      [] e.op = "kill" -> Live({[s EXCEPT !.ms = Killed(@, e.s)]}, {})
      [] e.op = "get" -> Get(s, e)
      [] e.op = "ctx" -> Cx(s, e)
      [] e.op = "deser" -> Deser(s, e)
      [] e.op = "raw" -> Live({s}, If(~e.wf /\ e.ok, {"C20"}, "bad bytes accepted as a context"))
      [] e.op = "ticket" -> Tk(s, e)
      [] OTHER -> Stop(s, {<<"C99", "unknown event">>})
R == INSTANCE TraceRun WITH Fresh <- VFresh, Step <- VStep, CrashProps <- VCrash, Trace <- TraceData
Init == R!TInit
Next == R!TNext
=============================================================================
