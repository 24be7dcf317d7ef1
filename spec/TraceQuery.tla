----------------------------- MODULE TraceQuery -----------------------------
(* Recorded queries against the concepts' exact contents: utilities (C05),   *)
(* categorisation (C07), symbol predictions (C08), densities (C09) and       *)
(* inference (C10).  After each recorded fit the model's tree is the         *)
(* recorded links with exact tallies of the instances at each leaf.          *)
EXTENDS StructQuery, Snapshot, TraceLib
CONSTANT Prop
VARIABLES tr, l
tvars == <<cvars, tr, l>>
Evs == Traces[tr].ev

TInit == /\ tr \in 1..Len(Traces) /\ l = 0
         /\ CobwebInit(Traces[tr].cfg, Traces[tr].root)

(* ------------------------- following the tree --------------------------- *)
RECURSIVE Tab(_, _, _)
Tab(r, b, n) == IF r[n].kids = <<>> THEN Tally(Get(b, n, <<>>))
                ELSE FoldSet(LAMBDA k, t : AddTable(Tab(r, b, k), t), EmptyTable, Elems(r[n].kids))
Follow(e) ==
    LET s == e.post
        r == Rec(s)
        g == {n \in SLeaves(s) : r[n].t.count # Len(Get(bag, n, <<>>))}
        to == IF g # {} THEN CHOOSE x \in g : (e.ret \in g => x = e.ret) ELSE e.ret
    IN /\ bag' = With(bag, to, Append(Get(bag, to, <<>>), e.inst))
       /\ hist' = IF cfg.kind = "cobweb" THEN None ELSE AddScales(cfg, hist, e.inst)
       /\ root' = s.root
       /\ nodes' = IF TreeLike(s)
                   THEN [n \in Ids(s) |-> Node(r[n].par, Elems(r[n].kids), Tab(r, bag', n))]
                   ELSE nodes
       /\ Report(tr, l + 1, Clause("the concepts do not form a tree", TreeLike(s)))
       /\ UNCHANGED <<pc, cur, inst, out, cfg, hier>>
FollowAll(e) ==
    LET s == e.post
        r == Rec(s)
    IN /\ bag' = PutAll(bag, e.fits, 1)
       /\ hist' = IF cfg.kind = "cobweb" THEN None ELSE ScaleAll(cfg, hist, e.fits, 1)
       /\ root' = s.root
       /\ nodes' = IF TreeLike(s)
                   THEN [n \in Ids(s) |-> Node(r[n].par, Elems(r[n].kids), Tab(r, bag', n))]
                   ELSE nodes
       /\ Report(tr, l + 1, Clause("the concepts do not form a tree", TreeLike(s)))
       /\ UNCHANGED <<pc, cur, inst, out, cfg, hier>>
ClearEv(e) == /\ bag' = None /\ hist' = None /\ root' = e.post.root
              /\ nodes' = [x \in {e.post.root} |-> Node(0, {}, EmptyTable)]
              /\ UNCHANGED <<pc, cur, inst, out, cfg, hier>>

LF(v) == FromLog(v)
Cl(logged, val) == Close(LF(logged), val)

(* ----------------------------- utilities -------------------------------- *)
C05(e) ==
    LET n == e.node  i == e.inst  t == T(n)
        kids == nodes[n].kids
        cu == CU(t, SeqOf(kids, T), ScNow)
        OpVal(o, b1, b2) == CASE o = "best" -> CUInsert(n, b1, i, ScNow)
                              [] o = "new" -> CUNew(n, i, ScNow)
                              [] o = "merge" -> CUMerge(n, b1, b2, i, ScNow)
                              [] o = "split" -> CUSplit(n, b1, ScNow)
                              [] OTHER -> FInt(-1000)
    IN Clause("computing utilities changes nothing",
              LET r == Rec(e.post)
              IN /\ TreeLike(e.post) /\ Ids(e.post) = DOMAIN nodes
                 /\ \A m \in DOMAIN nodes : Elems(r[m].kids) = nodes[m].kids /\ TableMatches(T(m), r[m].t))
       \cup Clause("expected correct guesses equal their definition", Cl(e.ecg, ECG(t, ScNow)))
       \cup Clause("category utility equals its definition", Cl(e.cu, cu))
       \cup Clause("the utility of a fringe split is that of the two leaves it makes",
                   t.count > 0 => Cl(e.fringe, CUFringe(t, i, ScNow)))
       \cup IF kids = {} THEN {} ELSE
            Clause("the utility of a new child is that of the partition with it", Cl(e.new, CUNew(n, i, ScNow)))
            \cup Clause("the utility of an insertion is that of the partition after it",
                   \A k \in 1..Len(e.kids) : Cl(e.kids[k].ins, CUInsert(n, e.kids[k].id, i, ScNow)))
            \cup Clause("relative utilities order and value insertions",
                   \A k \in 1..Len(e.kids) : Cl(e.kids[k].rel, RelCU(T(e.kids[k].id), i, ScNow)))
            \cup Clause("relative utility plus its constant is the utility of the insertion",
                   \A k \in 1..Len(e.kids) :
                      CloseTo(BAdd(FOver(FOver(LF(e.kids[k].rel), t.count + 1), Cardinality(kids)), LF(e.const)),
                              CUInsert(n, e.kids[k].id, i, ScNow), Tol8))
            \cup Clause("the utility of a split is that of the partition after it",
                   \A k \in 1..Len(e.kids) : nodes[e.kids[k].id].kids # {} =>
                        Cl(e.kids[k].split, CUSplit(n, e.kids[k].id, ScNow)))
            \cup Clause("the utility of a merge is that of the partition after it",
                   \A k \in 1..Len(e.merges) :
                        Cl(e.merges[k].v, CUMerge(n, e.merges[k].a, e.merges[k].b, i, ScNow)))
            \cup Clause("the two best children have the highest relative utility",
                   LET rel == RelScores(n, i, ScNow)
                   IN /\ e.b1 \in kids /\ NearMax(rel, e.b1)
                      /\ Cl(e.b1cu, CUInsert(n, e.b1, i, ScNow))
                      /\ IF Cardinality(kids) = 1 THEN e.b2 = 0
                         ELSE /\ e.b2 \in kids \ {e.b1}
                              /\ NearMax([k \in kids \ {e.b1} |-> rel[k]], e.b2))
            \cup Clause("the best operation has the highest utility of those possible",
                   \A k \in 1..Len(e.best) :
                     LET q == e.best[k]
                         poss == {o \in Elems(q.ops) :
                                    /\ o = "merge" => Cardinality(kids) > 2
                                    /\ o = "split" => nodes[e.b1].kids # {}}
                     IN /\ q.op \in poss
                        /\ Cl(q.cu, OpVal(q.op, e.b1, e.b2))
                        /\ \A o \in poss : BLeq(BSub(OpVal(o, e.b1, e.b2), LF(q.cu)), Tol8))

(* --------------------------- categorisation ----------------------------- *)
C07(e) == Clause("categorising follows a best child at every concept to a leaf",
                 e.ret \in Categorize(e.inst))

(* ----------------------------- prediction ------------------------------- *)
(* Weights a concept gives to the outcomes of an attribute, as integers over *)
(* its count: symbols v, "#num" for a number, "#none" for missing.           *)
Weights(t, a, none) ==
    IF a \notin Attrs(t) THEN [x \in {"#none"} |-> t.count]
    ELSE LET vs == Get(t.nom, a, None)
             nn == Get(t.num, a, NoSample).n
             w1 == IF a \in DOMAIN t.num THEN With(vs, "#num", nn) ELSE vs
             known == ISum(DOMAIN w1, LAMBDA v : w1[v])
         IN IF none THEN With(w1, "#none", t.count - known) ELSE w1
IMax(w) == FoldSet(LAMBDA x, m : IF w[x] > m THEN w[x] ELSE m, 0, DOMAIN w)
Allowed(t, a, fn, none) ==      \* outcomes a prediction may have
    LET w == Weights(t, a, none)
    IN IF a \notin Attrs(t) THEN {"#none"}
       ELSE IF fn = "m" THEN {x \in DOMAIN w : w[x] = IMax(w)} ELSE {x \in DOMAIN w : w[x] > 0}
\* an outcome of kind o, with logged number v when it is a number, is allowed
NumOk(t, a, fn, v) == IF fn = "m" THEN Cl(v, SMean(t.num[a]))
                      ELSE LET d == BAbs(BSub(LF(v), SMean(t.num[a])))
                           IN BLeq(d, BAdd(FTimes(SStd(t.num[a]), 12), Tol8))
OutcomeOk(t, a, fn, none, p) ==
    /\ p.o \in Allowed(t, a, fn, none)
    /\ p.o = "#num" => NumOk(t, a, fn, p.v)

\* many draws: every outcome about as often as its share, the numbers about the Gaussian's mean and spread (seven deviations)
Often(t, a, f) ==
    LET w == Weights(t, a, f.none)
        S == ISum(DOMAIN w, LAMBDA v : w[v])
        N(o) == ISum({k \in 1..Len(f.c) : f.c[k].o = o}, LAMBDA k : f.c[k].n)
        Dev(o) == BSub(BMul(BFrom(N(o)), BFrom(S)), BMul(BFrom(f.n), BFrom(w[o])))
        m == N("#num")
        v == SVar(t.num[a])
        d == BSub(LF(f.avg), SMean(t.num[a]))
    IN f.n > 0 /\ a \in Attrs(t) /\ S > 0 =>
       /\ \A o \in DOMAIN w : BLeq(BMul(Dev(o), Dev(o)), BMul(BFrom(49), BAdd(BMul(BMul(BFrom(f.n), BFrom(w[o])), BFrom(S - w[o])), BFrom(S * S))))
       /\ m >= 100 => /\ BLeq(FMul(d, d), BAdd(FOver(FTimes(v, 49), m), Tol8))
                      /\ LET e == BAbs(BSub(LF(f.var), v)) IN BLeq(FMul(e, e), BAdd(FOver(FMul(FTimes(v, 98), v), m), Tol8))

SumLog(q) == FoldSet(LAMBDA k, acc : BAdd(LF(q[k].p), acc), FZero, 1..Len(q))
C08(e) ==
    LET t == T(e.node)  a == e.attr
        W(q, none) == LET w == Weights(t, a, none)
                      IN /\ {q[k].o : k \in 1..Len(q)} = DOMAIN w
                         /\ Len(q) = Cardinality(DOMAIN w)
                         /\ \A k \in 1..Len(q) :
                              Cl(q[k].p, IF t.count = 0 THEN FOne ELSE FRat(w[q[k].o], t.count))
    IN Clause("value weights are the relative frequencies beneath the concept",
              W(e.wnone, TRUE) /\ W(e.wval, FALSE))
       \cup Clause("the distribution including missing is non-negative and sums to one",
              /\ Cl([k \in 1..1 |-> e.sum][1], FOne)
              /\ \A k \in 1..Len(e.wnone) : BSign(e.wnone[k].p) >= 0)
       \cup Clause("probabilities agree with the weights",
              \A k \in 1..Len(e.probs) :
                 LET w == Get(Weights(t, a, TRUE), e.probs[k].o, 0)
                 IN Cl(e.probs[k].p, IF t.count = 0
                                     THEN (IF e.probs[k].o = "#none" THEN FOne ELSE FZero)
                                     ELSE FRat(w, t.count)))
       \cup Clause("a most likely prediction has maximal probability",
              \A k \in 1..Len(e.ml) : OutcomeOk(t, a, "m", e.ml[k].none, e.ml[k]))
       \cup Clause("sampled predictions come about as often as they are probable", Often(t, a, e.fr))
       \cup Clause("a sampled prediction has positive probability",
              \A k \in 1..Len(e.sm) : OutcomeOk(t, a, "s", e.sm[k].none, e.sm[k]))

(* ------------------------------ densities ------------------------------- *)
\* probability of the number x (in units of 10^-4) for attribute a
Density(t, a, x) ==
    IF a \notin DOMAIN t.num THEN FZero
    ELSE LET s  == t.num[a]
             s2 == ScaleSq(cfg, hist, a)
             v  == BAdd(FDiv(SVar(s), s2), FDiv(FOne, FTimes(FPi, 2)))   \* variance with noise
             d  == BSub(FVal(x), SMean(s))
             z  == FDiv(FDiv(FMul(d, d), s2), FTimes(v, 2))
         IN FMul(FRat(s.n, t.count), FDiv(FExpNeg(z), FSqrt(FMul(FTimes(FPi, 2), v))))
\* what rounding numbers of this size can do to a density (its slope is below 2 per unit of scale)
Rounding(t, a, x) ==
    IF a \notin DOMAIN t.num THEN FZero
    ELSE LET h == IF cfg.scal = 0 \/ ScaleName(cfg, a) \notin DOMAIN hist THEN FZero ELSE BAbs(SMean(hist[ScaleName(cfg, a)]))
             m == BAdd(h, BAdd(BAbs(FVal(x)), BAbs(SMean(t.num[a]))))
         IN FDiv(FMul(m, FRat(1, 1000000000)), FTimes(FSqrt(ScaleSq(cfg, hist, a)), 10000))
C09(e) ==
    LET t == T(e.node)  a == e.attr
        share == IF a \in DOMAIN t.num THEN FRat(t.num[a].n, t.count) ELSE FZero
    IN Clause("the probability of a number is the share of numbers times the concept's density",
              \A k \in 1..Len(e.qs) : LET d == Density(t, a, e.qs[k].x) IN
                  Cl(e.qs[k].p, d) \/ BLeq(BAbs(BSub(LF(e.qs[k].p), d)), Rounding(t, a, e.qs[k].x)))
       \cup Clause("a density is never negative nor above the share of numbers",
              \A k \in 1..Len(e.qs) : /\ BSign(e.qs[k].p) >= 0
                                      /\ BLeq(LF(e.qs[k].p), BAdd(share, Tol9)))
       \cup Clause("the most likely number is the mean",
              \A k \in 1..Len(e.ml) : OutcomeOk(t, a, "m", e.ml[k].none, e.ml[k]))
       \cup Clause("sampled numbers are spread like the concept's Gaussian", Often(t, a, e.fr))
       \cup Clause("a sampled number comes from the concept's Gaussian",
              \A k \in 1..Len(e.sm) : OutcomeOk(t, a, "s", e.sm[k].none, e.sm[k]))

(* ------------------------------ inference ------------------------------- *)
C10(e) ==
    LET i == e.inst  r == e.res
        given == InstAttrs(i)
        rAttrs == DOMAIN r.nom \cup DOMAIN r.num
        FromLeaf(n) ==
            /\ rAttrs \subseteq given \cup Attrs(T(n))
            /\ \A a \in Attrs(T(n)) \ given :
                 LET p == IF a \in DOMAIN r.num THEN [o |-> "#num", v |-> r.num[a]]
                          ELSE IF a \in DOMAIN r.nom THEN [o |-> r.nom[a], v |-> <<0>>]
                          ELSE [o |-> "#none", v |-> <<0>>]
                 IN OutcomeOk(T(n), a, e.fn, e.none, p)
    IN Clause("every given attribute keeps its value",
              /\ \A a \in DOMAIN i.nom : a \in DOMAIN r.nom /\ r.nom[a] = i.nom[a]
              /\ \A a \in DOMAIN i.num : a \in DOMAIN r.num /\ Cl(r.num[a], FVal(i.num[a]))
              /\ \A a \in given : ~(a \in DOMAIN r.nom /\ a \in DOMAIN r.num))
       \cup Clause("predictions come from one leaf the instance is categorised to",
              \E n \in Categorize(i) : FromLeaf(n))

(* --------------------- structured instances (Trestle) ------------------- *)
CVs(e) == UNION {Tm!VarsIn(Tm!Canon(e.rattrs[k])) : k \in 1..Len(e.rattrs)}
C07S(e) ==
    LET y == Flatten(Tm!Canon(e.x))  sc == ScNow
    IN Clause("categorising a structured instance follows a best child at every concept to a leaf, from a best matching",
              \E f \in Settled(y, CVs(e), sc) : e.ret \in LeavesFor(y, f, sc))
C10S(e) ==
    LET x == Tm!Canon(e.x)  r == Tm!Canon(e.res)
        y == Flatten(x)  z == Flatten(r)  sc == ScNow
        known == {Tm!Canon(e.rattrs[k]) : k \in 1..Len(e.rattrs)}
        \* the owner of an object that was given, or of which nothing is predicted, may be left out
        Owner(a, f, q) == \E b \in known : /\ Tm!IsHC(b) /\ Repr(b) = a
                                           /\ Tm!IsVar(b.u[3]) /\ (\A v \in DOMAIN f : f[v] # b.u[3]) =>
                                                \A c \in known \ {b} : b.u[3] \in Tm!VarsIn(c) => Repr(c) \notin q
        From(f, n) ==
            LET i == Plain(Tm!Rename(y, f))  p == Plain(Tm!Rename(z, f))
                given == InstAttrs(i)
            IN /\ InstAttrs(p) \subseteq given \cup Attrs(T(n))
               /\ \A a \in Attrs(T(n)) \ given :
                    LET o == IF a \in DOMAIN p.num THEN [o |-> "#num", v |-> p.num[a]]
                             ELSE IF a \in DOMAIN p.nom THEN [o |-> p.nom[a], v |-> <<0>>]
                             ELSE [o |-> "#none", v |-> <<0>>]
                    IN Owner(a, f, InstAttrs(p)) \/ OutcomeOk(T(n), a, e.fn, e.none, o)
    IN Clause("every given attribute keeps its value, name and nesting", Contains(r, x))
       \cup Clause("predictions come from one leaf the structured instance is categorised to",
              \E f \in Settled(y, CVs(e), sc) : \E n \in LeavesFor(y, f, sc) : From(f, n))

(* ------------------- questions about the shape (C33) -------------------- *)
RECURSIVE Up(_, _)
Up(r, n) == IF r[n].par = 0 THEN {n} ELSE {n} \cup Up(r, r[n].par)          \* n and its ancestors
RECURSIVE Under(_, _)
Under(r, n) == {n} \cup UNION {Under(r, k) : k \in Elems(r[n].kids)}
RECURSIVE Listing(_, _, _), Lists(_, _, _, _)
\* the concepts beneath n in printing order, with their depths and counts
Listing(r, n, d) == <<[d |-> d, c |-> r[n].t.count]>> \o Lists(r, r[n].kids, 1, d + 1)
Lists(r, q, k, d) == IF k > Len(q) THEN <<>> ELSE Listing(r, q[k], d) \o Lists(r, q, k + 1, d)
C33(e) ==
    LET r == Rec(e.post)  s == e.post
    IN IF ~TreeLike(s) \/ Ids(s) # DOMAIN nodes THEN {"the concepts do not form the tree fitted"} ELSE
       Clause("the depth of a concept is its distance from the root",
              \A k \in 1..Len(e.depth) : e.depth[k].v = Cardinality(Up(r, e.depth[k].n)) - 1)
       \cup Clause("the number of concepts is that of the concepts beneath, itself included",
              \A k \in 1..Len(e.num) : e.num[k].v = Cardinality(Under(r, e.num[k].n)))
       \cup Clause("a concept is a parent of exactly the concepts beneath it (and itself)",
              \A k \in 1..Len(e.isp) : e.isp[k].v = (e.isp[k].a \in Up(r, e.isp[k].b)))
       \cup Clause("a concept of another tree has no parent here", ~e.stranger)
       \cup Clause("by default the visible attributes are listed, each once",
              \A k \in 1..Len(e.attrs) : LET q == e.attrs[k] IN
                 Elems(q.vis) = Visible(T(q.n)) /\ Len(q.vis) = Cardinality(Visible(T(q.n))))
       \cup Clause("asking for all attributes lists the hidden ones too",
              \A k \in 1..Len(e.attrs) : LET q == e.attrs[k] IN
                 Elems(q.all) = Attrs(T(q.n)) /\ Len(q.all) = Cardinality(Attrs(T(q.n))))
       \cup Clause("a filter lists exactly the attributes it accepts",
              \A k \in 1..Len(e.attrs) : LET q == e.attrs[k] IN Elems(q.some) = Attrs(T(q.n)) \cap Elems(q.want))
       \cup Clause("a concept matches exactly the instances looking like everything it holds",
              \A k \in 1..Len(e.exact) : LET q == e.exact[k] IN q.v = Exact(T(q.n), q.inst))
       \cup Clause("printing shows every concept once, beneath its parent, with its count",
              e.lines = Listing(r, e.pnode, 0))
       \cup Clause("printing shows every attribute and value of every concept", e.mentions)
       \cup Clause("concepts are told apart by hash and equality", e.distinct)
       \cup Clause("the inner name of an attribute is its innermost part when inner scaling is on",
              \A k \in 1..Len(e.inner) : e.inner[k].v = IF cfg.inner THEN Meta[e.inner[k].a].inner ELSE e.inner[k].a)

Verdict(e) == CASE e.op = "cu"  -> C05(e)
                [] e.op = "shape" -> C33(e)
                [] e.op = "cat" -> C07(e)
                [] e.op = "nom" -> C08(e)
                [] e.op = "num" -> C09(e)
                [] e.op = "inf" -> C10(e)
                [] e.op = "scat" -> C07S(e)
                [] e.op = "sinf" -> C10S(e)
                [] e.op = "err" -> {"a valid operation fails: " \o e.err}

TNext ==
    /\ l < Len(Evs)
    /\ l' = l + 1 /\ tr' = tr
    /\ LET e == Evs[l + 1]
       IN CASE e.op = "fit"   -> Follow(e)
            [] e.op = "bulk"  -> FollowAll(e)
            [] e.op = "clear" -> ClearEv(e)
            [] OTHER -> /\ Report(tr, l + 1, Verdict(e))
                        /\ UNCHANGED cvars
    /\ l' = Len(Evs) => Done(tr, l')
TSpec == TInit /\ [][TNext]_tvars
=============================================================================
