------------------------------ MODULE TraceView -----------------------------
(* Recorded exports and visualisations (C28).                                *)
EXTENDS LTable, TraceLib, Views
VARIABLES tr, l
Evs == Traces[tr].ev
TInit == tr \in 1..Len(Traces) /\ l = 0 /\ CTInit

KindT == Traces[tr].cfg.kind
Name(n) == "Concept" \o ToString(n)
SameNum(s, x) == /\ s.n = x.n
                 /\ Close(FromLog(s.m), FromLog(x.mean))
                 /\ CloseTo(LVar(LS(s)), FMul(FromLog(x.std), FromLog(x.std)), Tol8)
SameTable(t, j) ==
    /\ DOMAIN t.nom = DOMAIN j.nom /\ \A a \in DOMAIN t.nom : t.nom[a] = j.nom[a]
    /\ DOMAIN t.num = DOMAIN j.num /\ \A a \in DOMAIN t.num : SameNum(t.num[a], j.num[a])
Guid(r, n, j) == LET g == Get(r[n].t.nom, "'_guid'", None)
                     any == "'_guid'" \in DOMAIN r[n].t.nom \/ "'_guid'" \in DOMAIN r[n].t.num
                 IN IF KindT = "cobweb" \/ ~any THEN j.guid = "" ELSE j.guid \in DOMAIN g \cup {"'#ContinuousValue#'"}
RECURSIVE Mirrors(_, _, _)
Mirrors(r, n, j) ==
    /\ j.name = Name(n) /\ j.size = r[n].t.count /\ SameTable(r[n].t, j) /\ Guid(r, n, j)
    /\ Len(j.kids) = Len(r[n].kids)
    /\ {j.kids[i].name : i \in Ix(j)} = {Name(k) : k \in Elems(r[n].kids)}
    /\ \A i \in Ix(j) : \E k \in Elems(r[n].kids) : j.kids[i].name = Name(k) /\ Mirrors(r, k, j.kids[i])
RECURSIVE Alike(_, _)
\* two exports of the same concept, whatever the order of children
Alike(a, b) == /\ a.name = b.name /\ a.size = b.size /\ a.guid = b.guid /\ a.nom = b.nom /\ a.num = b.num
               /\ Len(a.kids) = Len(b.kids)
               /\ \A i \in Ix(a) : \E k \in Ix(b) : Alike(a.kids[i], b.kids[k])

Export(e) == Clause("the export mirrors the concept and everything beneath it", Mirrors(Rec(e.post), e.node, e.j))
             \cup Clause("exporting changes nothing", e.same)
Shown(e) == CASE e.view = "all" -> e.full
              [] e.view = "cut" -> CutTimes(e.full, e.cuts)
              [] e.view = "clusters" -> TrimTo(e.full, Elems(e.names))
Files == {"viz.html", "viz_logic.js", "viz_styling.css", "output.js"}
View(e) == Clause("the file written holds the export of the current tree", Mirrors(Rec(e.post), e.post.root, e.full))
           \cup Clause("the view is the export trimmed as asked", e.parsed /\ Alike(e.j, Shown(e)))
           \cup Clause("files are written only to the folder chosen", e.contained /\ Elems(e.files) = Files \cup Elems(e.already))
           \cup Clause("supporting files are those of the package, or kept if asked", e.support)
           \cup Clause("the page opened is the one written", e.opened)
           \cup Clause("visualising changes nothing in the tree", e.same)
Verdict(e) == CASE e.op = "export" -> Export(e) [] e.op = "view" -> View(e)
                [] e.op = "err" -> {"a tree cannot be exported: " \o e.err}
TNext == /\ l < Len(Evs) /\ l' = l + 1 /\ tr' = tr
         /\ Report(tr, l + 1, Verdict(Evs[l + 1]))
         /\ UNCHANGED <<bag, hier>>
         /\ l' = Len(Evs) => Done(tr, l')
TSpec == TInit /\ [][TNext]_<<tr, l, bag, hier>>
=============================================================================
