------------------------------ MODULE TraceLoad -----------------------------
(* Recorded loads of data sets (C31), interleaved with writes of the caller  *)
(* into what was returned.  Records are compared by digest.                  *)
EXTENDS Loader, TraceLib, FiniteSets
VARIABLES tr, l
Evs == Traces[tr].ev
TInit == tr \in 1..Len(Traces) /\ l = 0
Full(e) == File.meta[e.ds]
Verdict(e) ==
    CASE e.op = "err" -> {"a data set cannot be loaded"}
      [] e.op = "load" ->
           Clause("asking for n instances gives exactly the first n of the data set", e.got = Loaded(Full(e), e.n))
           \cup Clause("every load gives records of its own", e.fresh)
      [] e.op = "make" ->
           Clause("as many animals as asked", Len(e.got) = e.n)
           \cup Clause("every animal is one of the four kinds with its eight parts and their ten attributes",
                       \A i \in 1..Len(e.got) :
                          /\ e.got[i].type \in {"dog", "cat", "horse", "giraffe"}
                          /\ {e.got[i].parts[k].name : k \in 1..Len(e.got[i].parts)} =
                                {"torso", "leg1", "leg2", "leg3", "leg4", "neck", "head", "tail"}
                          /\ \A k \in 1..Len(e.got[i].parts) :
                                /\ {e.got[i].parts[k].attrs[j] : j \in 1..Len(e.got[i].parts[k].attrs)} =
                                     {"_type", "locationX", "locationY", "locationZ", "axisX", "axisY", "axisZ",
                                      "height", "radius", "texture"}
                                /\ e.got[i].parts[k].numeric)
           \cup Clause("every load gives records of its own", e.fresh)
TNext == /\ l < Len(Evs) /\ l' = l + 1 /\ tr' = tr
         /\ Report(tr, l + 1, Verdict(Evs[l + 1]))
         /\ l' = Len(Evs) => Done(tr, l')
TSpec == TInit /\ [][TNext]_<<tr, l>>
=============================================================================
