---------------------------- MODULE TraceCluster ----------------------------
(* Recorded clusterings (C24), heuristics and split searches (C25) and depth *)
(* labels (C26) against the hierarchy they were made from.                   *)
EXTENDS LTable, TraceLib
CONSTANT Prop
C == INSTANCE Clusters
VARIABLES tr, l
Evs == Traces[tr].ev
Cfg == Traces[tr].cfg
TInit == tr \in 1..Len(Traces) /\ l = 0 /\ CTInit

Inf == FromLog(<<1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 1>>)     \* how the harness logs infinity
Score(v) == FromLog(v)

(* ------------------------------ heuristics ------------------------------ *)
Params(t) == ISum(Visible(t), LAMBDA a : (IF a \in DOMAIN t.nom THEN Cardinality(DOMAIN t.nom[a]) ELSE 0)
                                         + (IF a \in DOMAIN t.num THEN 2 ELSE 0))
JoinOf(r, lab, leaf, c) ==
    FoldSet(LAMBDA i, t : IF lab[i] = c THEN LAdd(t, LTab(r[leaf[i]].t)) ELSE t,
            [count |-> 0, nom |-> None, num |-> None], DOMAIN leaf)
HCU(r, lab, leaf, sc) ==
    LET ts == FoldSet(LAMBDA c, acc : Append(acc, JoinOf(r, lab, leaf, c)), <<>>, Elems(lab))
        p == FoldSet(LAMBDA k, t : LAdd(ts[k], t), [count |-> 0, nom |-> None, num |-> None], 1..Len(ts))
    IN BNeg(LCU(p, ts, Cfg, sc))
LL(r, lab, leaf) == FSum(DOMAIN leaf, LAMBDA i : LogLik(LTab(r[lab[i]].t), LTab(r[leaf[i]].t)))
KPar(r, lab) == ISum(Elems(lab), LAMBDA c : Params(LTab(r[c].t)))
H(name, r, lab, leaf, sc) ==
    LET k == KPar(r, lab)  n == Len(leaf)  ll == LL(r, lab, leaf)
        aic == BSub(FInt(2 * k), FTimes(ll, 2))
    IN CASE name = "CU"  -> HCU(r, lab, leaf, sc)
         [] name = "AIC" -> aic
         [] name = "AICc" -> IF n - k <= 1 THEN Inf ELSE BAdd(aic, FRat(2 * k * (k + 1), n - k - 1))
         [] name = "BIC" -> BSub(FTimes(FLn(FInt(n)), k), FTimes(ll, 2))
Leq(a, b) == BLeq(BSub(a, b), FMul(Tol6, FMax(FOne, BAbs(b))))
Same(a, b) == CloseTo(a, b, Tol6)

(* ----------------------------- clusterings ------------------------------ *)
Par(s) == [i \in Ids(s) |-> Rec(s)[i].par]
Labs(e, par, F) == C!Labels(par, F, e.leaf)
NumOf(lab) == Cardinality(Elems(lab))

\* The order in which a heuristic ranks labellings: exactly as it ranked them
\* when it was watched ...
RankOf(e, lab) ==
    LET q == {k \in 1..Len(e.calls) : e.calls[k].lab = lab}
    IN IF q = {} THEN 1000000 ELSE e.calls[CHOOSE k \in q : TRUE].rank
SeenNext(e, par, F) ==
    LET cs == C!Candidates(par, F, e.leaf)
        N == [c \in cs |-> C!SplitFront(par, F, c)]
        v == [c \in cs |-> RankOf(e, Labs(e, par, N[c]))]
    IN {N[x] : x \in {x \in cs : \A y \in cs : v[x] <= v[y]}}
\* ... or by its formula, up to rounding, when it was not.
FormNext(e, h, par, F) ==
    LET cs == C!Candidates(par, F, e.leaf)
        N == [c \in cs |-> C!SplitFront(par, F, c)]
        v == [c \in cs |-> H(h, Rec(e.post), Labs(e, par, N[c]), e.leaf, e.scales)]
    IN IF Cardinality(cs) <= 1 THEN {N[x] : x \in cs}
       ELSE {N[x] : x \in {x \in cs : \A y \in cs : Leq(v[x], v[y])}}
Next1(e, h, par, F) == IF h = "seen" THEN SeenNext(e, par, F) ELSE FormNext(e, h, par, F)

\* two labellings make the same clusters
SamePart(p, q) == /\ Len(p) = Len(q)
                  /\ \A i, j \in 1..Len(p) : (p[i] = p[j]) <=> (q[i] = q[j])
Agree(e, h, p, q) == IF h # "seen" /\ e.mod THEN SamePart(p, q) ELSE p = q

\* Clusterings number lo..hi seen as labs: is there a run of splits that
\* explains them?  Fs: where such a run may be at clustering number j.
RECURSIVE Explained(_, _, _, _, _, _, _, _)
Explained(e, h, par, lo, hi, labs, j, Fs) ==
    LET ok == IF j < lo THEN Fs
              ELSE IF j - lo + 1 > Len(labs) THEN {}
              ELSE {F \in Fs : Agree(e, h, Labs(e, par, F), labs[j - lo + 1])}
        ended == \E F \in ok : C!Candidates(par, F, e.leaf) = {}
    IN IF ok = {} THEN FALSE
       ELSE IF j = hi THEN Len(labs) = hi - lo + 1
       ELSE \/ ended /\ Len(labs) = (IF j < lo THEN 0 ELSE j - lo + 1)
            \/ LET nx == UNION {Next1(e, h, par, F) : F \in ok}
               IN nx # {} /\ Explained(e, h, par, lo, hi, labs, j + 1, nx)

\* the clusterings k-clustering may give: the last of a run with at most k clusters
RECURSIVE KLast(_, _, _, _)
KLast(e, par, k, Fs) ==
    LET few == {F \in Fs : NumOf(Labs(e, par, F)) <= k}
        nx == [F \in few |-> FormNext(e, "CU", par, F)]
        stop == {F \in few : nx[F] = {} \/ \E G \in nx[F] : NumOf(Labs(e, par, G)) > k}
        go == {G \in UNION {nx[F] : F \in few} : NumOf(Labs(e, par, G)) <= k}
    IN {Labs(e, par, F) : F \in stop} \cup IF go = {} THEN {} ELSE KLast(e, par, k, go)

\* the split search: where a run may be, with the best clustering so far
RECURSIVE Search(_, _, _, _)
Search(e, par, j, Ss) ==
    LET upd(s) == LET lab == Labs(e, par, s.F)
                      q == {k \in 1..Len(e.calls) : e.calls[k].lab = lab}
                      c == e.calls[CHOOSE k \in q : TRUE]
                  IN IF j >= e.min /\ q # {} /\ ~c.inf /\ c.rank < s.rank
                     THEN [F |-> s.F, rank |-> c.rank, lab |-> lab] ELSE s
        now == {upd(s) : s \in Ss}
        nx == UNION {{[s EXCEPT !.F = G] : G \in SeenNext(e, par, s.F)} : s \in now}
    IN IF j = e.max THEN {s.lab : s \in now}
       ELSE {s.lab : s \in {s \in now : C!Candidates(par, s.F, e.leaf) = {}}}
            \cup IF nx = {} THEN {} ELSE Search(e, par, j + 1, nx)

AllRoot(e) == [i \in 1..Len(e.leaf) |-> e.oldroot]
C24(e) ==
    LET par == Par(e.post)
        labs == [j \in 1..Len(e.seq) |-> e.seq[j].lab]
        known == \A j \in 1..Len(e.seq) : \A i \in 1..Len(e.leaf) : e.seq[j].lab[i] \in Ids(e.post)
    IN Clause("clusterings label instances with concepts of the hierarchy", known)
       \cup Clause("a first clustering is produced", e.min = 1 => Len(e.leaf) > 0)
       \cup Clause("clusterings are those of successively splitting the cluster of least score",
              known /\ (Len(e.leaf) > 0 => Explained(e, "seen", par, e.min, e.max, labs, 1, {C!Front0(par)})))
       \cup Clause("the caller's tree is untouched", e.untouched)
       \cup Clause("the requested range of clusterings is produced",
              \A q \in 1..Len(e.ranges) :
                 LET g == e.ranges[q]
                 IN Len(e.leaf) > 0 => Explained(e, g.heur, par, g.min, g.max, g.labs, 1, {C!Front0(par)}))
       \cup Clause("a heuristic asked for by name is the one that scores",
              \A q \in 1..Len(e.ranges) : \A j \in 1..Len(e.ranges[q].hs) :
                 LET g == e.ranges[q]
                 IN Same(Score(g.hs[j]), H(g.heur, Rec(e.post), g.labs[j], e.leaf, e.scales)))
       \cup Clause("k-clustering is the last clustering of at most k clusters",
              \A q \in 1..Len(e.ks) :
                 LET g == e.ks[q]
                     few == NumOf(Labs(e, par, C!Front0(par))) <= g.k
                 IN Len(e.leaf) > 0 =>
                    IF few THEN \E p \in KLast(e, par, g.k, {C!Front0(par)}) : Agree(e, "CU", g.lab, p)
                    ELSE g.lab = AllRoot(e))
C25(e) ==
    LET r == Rec(e.post)  par == Par(e.post) IN
    Clause("a heuristic equals its formula",
           \A k \in 1..Len(e.hs) :
              Same(Score(e.hs[k].v), H(e.hs[k].name, r, e.hs[k].lab, e.leaf, e.scales)))
    \cup Clause("log-likelihood equals its formula",
           \A k \in 1..Len(e.lls) : Same(FromLog(e.lls[k].v), LogLik(LTab(r[e.lls[k].a].t), LTab(r[e.lls[k].b].t))))
    \cup Clause("each clustering comes with its score",
           e.heur # "custom" =>
           \A j \in 1..Len(e.seq) : Same(Score(e.seq[j].h), H(e.heur, r, e.seq[j].lab, e.leaf, e.scales)))
    \cup Clause("each clustering comes with the score its heuristic gives it",
           \A j \in 1..Len(e.seq) : RankOf(e, e.seq[j].lab) = e.seq[j].rank)
    \cup Clause("the split search returns the first clustering of least score",
           e.op = "search" /\ Len(e.leaf) > 0 =>
             e.result \in Search(e, par, 1, {[F |-> C!Front0(par), rank |-> 1000000, lab |-> [i \in 1..Len(e.leaf) |-> e.oldroot]]}))

(* ------------------------------ depth labels ---------------------------- *)
RECURSIVE PathTo(_, _)
PathTo(par, n) == IF par[n] = 0 THEN <<n>> ELSE Append(PathTo(par, par[n]), n)
C26(e) ==
    LET par == Par(e.post)
        rows == Len(e.rows)
        leafOf(i) == e.rows[rows][i]
        depth == FoldSet(LAMBDA i, m : LET d == Len(PathTo(par, leafOf(i))) IN IF d > m THEN d ELSE m, 0, 1..e.n)
        known == /\ rows > 0 /\ \A d \in 1..rows : Len(e.rows[d]) = e.n
                 /\ \A i \in 1..e.n : leafOf(i) \in SLeaves(e.post)
    IN Clause("every row labels every instance and the last row names leaves", known)
       \cup IF ~known THEN {} ELSE
            Clause("labels of an instance are the path from the root to its leaf, padded with the leaf",
                   \A i \in 1..e.n : LET p == PathTo(par, leafOf(i))
                                     IN \A d \in 1..rows : e.rows[d][i] = p[IF d > Len(p) THEN Len(p) ELSE d])
            \cup Clause("there are as many rows as the deepest instance has concepts above it", rows = depth)
            \cup Clause("the leaf labelled is the leaf of the instance",
                   \A i \in 1..e.n : leafOf(i) = e.leaf[i])
            \cup Clause("labelling changes the tree only by fitting the instances",
                   IF e.mod THEN Rec(e.post)[e.post.root].t.count = e.count + e.n ELSE e.untouched)

Verdict(e) == IF e.op = "err" THEN {"a valid operation fails: " \o e.err}
              ELSE CASE Prop = "C24" -> C24(e) [] Prop = "C25" -> C25(e) [] Prop = "C26" -> C26(e)
TNext == /\ l < Len(Evs) /\ l' = l + 1 /\ tr' = tr
         /\ Report(tr, l + 1, Verdict(Evs[l + 1]))
         /\ UNCHANGED <<bag, hier>>
         /\ l' = Len(Evs) => Done(tr, l')
TSpec == TInit /\ [][TNext]_<<tr, l, bag, hier>>
=============================================================================
