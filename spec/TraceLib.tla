------------------------------ MODULE TraceLib ------------------------------
(* Reading recorded executions and reporting verdicts.  The harness writes   *)
(* {meta, traces: [{cfg, ev: [...]}]} to the file named by $TRACES.          *)
(* A trace specification walks every trace; each step evaluates named        *)
(* clauses and reports the ones that fail, so a verdict is always total.     *)
EXTENDS Json, IOUtils, TLC, TLCExt, Integers, Sequences
File   == JsonDeserialize(IOEnv.TRACES)
Traces == File.traces
TraceMeta == File.meta
Report(tr, l, cs) == \A c \in cs : PrintT("FAIL|" \o ToString(tr) \o "|" \o ToString(l) \o "|" \o c)
Done(tr, l) == PrintT("DONE|" \o ToString(tr) \o "|" \o ToString(l))
Info(k, n)  == PrintT("INFO|" \o k \o "|" \o ToString(n))
\* the set of names of clauses that do not hold; C is a set of <<name, BOOLEAN>>
Failing(C) == {c[1] : c \in {x \in C : ~x[2]}}
Clause(name, ok) == IF ok THEN {} ELSE {name}
=============================================================================
