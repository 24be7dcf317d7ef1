----------------------------- MODULE TraceNames -----------------------------
(* Recorded uses of the functions on structured names (C36).                 *)
EXTENDS Names, TraceLib
VARIABLES tr, l
Evs == Traces[tr].ev
TInit == tr \in 1..Len(Traces) /\ l = 0
Cans(q) == {Canon(q[i]) : i \in 1..Len(q)}
MapOf(q) == [k \in {Canon(q[i][1]) : i \in 1..Len(q)} |-> Canon(q[CHOOSE i \in 1..Len(q) : Canon(q[i][1]) = k][2])]
At1(e) == LET a == Canon(e.a)  f == MapOf(e.f)  g == MapOf(e.g) IN
    Clause("the variables of an attribute are found", Cans(e.vars) = NamesIn(a, FALSE))
    \cup Clause("every name of an attribute that is not hidden is found", Cans(e.all) = NamesIn(a, TRUE))
    \cup Clause("renaming a relation replaces exactly the mapped parts", IsU(a) => Canon(e.ren) = RenParts(a, g))
    \cup Clause("binding an attribute replaces exactly the mapped names", IsU(a) => Canon(e.bound) = RenParts(a, f))
    \cup Clause("a component is contained where it occurs",
                \A i \in 1..Len(e.occ) : e.occ[i].v = Occurs(Canon(e.occ[i].c), a))
    \cup Clause("a partial match is decided part by part",
                \A i \in 1..Len(e.match) : e.match[i].v = Partial(a, Canon(e.match[i].b), f))
    \cup Clause("arguments are left alone", e.same)
Inst(e) == LET x == Canon(e.x)  f == MapOf(e.f) IN
    Clause("the names of an instance are those of its attributes",
           Cans(e.vars) = NamesOf(Keys(x), FALSE) /\ Cans(e.all) = NamesOf(Keys(x), TRUE))
    \cup Clause("renaming an instance renames its attributes and keeps every value",
                Canon(e.ren) = D({<<RenAttr(p[1], f), p[2]>> : p \in x.d}))
    \cup Clause("arguments are left alone", e.same)
Verdict(e) == CASE e.op = "err" -> {"a valid operation fails: " \o e.err}
                [] e.op = "attr" -> At1(e) [] e.op = "inst" -> Inst(e)
TNext == /\ l < Len(Evs) /\ l' = l + 1 /\ tr' = tr
         /\ Report(tr, l + 1, Verdict(Evs[l + 1]))
         /\ l' = Len(Evs) => Done(tr, l')
TSpec == TInit /\ [][TNext]_<<tr, l>>
=============================================================================
