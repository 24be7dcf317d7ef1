------------------------------ MODULE Concept ------------------------------
(* Probability tables of concepts and the scores computed from them.         *)
(*                                                                           *)
(* An (already flat) instance is [nom |-> attr -> value, num |-> attr ->     *)
(* decimal].  A concept table is                                             *)
(*   [count |-> N, nom |-> attr -> (value -> N), num |-> attr -> sample].    *)
(* Attribute names and nominal values are strings chosen by the projection   *)
(* of the harness; Meta gives, for every attribute, whether it is hidden     *)
(* (name starts with an underscore) and its innermost name (for scaling).    *)
EXTENDS Stats, Sequences, FiniteSetsExt, TLC
CONSTANT Meta          \* [attr |-> [hid |-> BOOLEAN, inner |-> STRING]]

Hidden(a) == Meta[a].hid
With(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Get(f, k, d) == IF k \in DOMAIN f THEN f[k] ELSE d
FSum(S, f(_)) == FoldSet(LAMBDA x, acc : BAdd(f(x), acc), FZero, S)
ISum(S, f(_)) == FoldSet(LAMBDA x, acc : f(x) + acc, 0, S)

None == <<>>           \* the empty function
EmptyTable == [count |-> 0, nom |-> None, num |-> None]
InstAttrs(i) == DOMAIN i.nom \cup DOMAIN i.num
Attrs(t) == DOMAIN t.nom \cup DOMAIN t.num
Visible(t) == {a \in Attrs(t) : ~Hidden(a)}

(* ------------------------- building tables ------------------------------ *)
AddInst(t, i) ==
    [count |-> t.count + 1,
     nom |-> [a \in DOMAIN t.nom \cup DOMAIN i.nom |->
                LET vs == Get(t.nom, a, None)
                IN IF a \in DOMAIN i.nom
                   THEN With(vs, i.nom[a], Get(vs, i.nom[a], 0) + 1) ELSE vs],
     num |-> [a \in DOMAIN t.num \cup DOMAIN i.num |->
                LET s == Get(t.num, a, NoSample)
                IN IF a \in DOMAIN i.num THEN SampleAdd(s, i.num[a]) ELSE s]]

AddTable(t, u) ==
    [count |-> t.count + u.count,
     nom |-> [a \in DOMAIN t.nom \cup DOMAIN u.nom |->
                LET x == Get(t.nom, a, None)  y == Get(u.nom, a, None)
                IN [v \in DOMAIN x \cup DOMAIN y |-> Get(x, v, 0) + Get(y, v, 0)]],
     num |-> [a \in DOMAIN t.num \cup DOMAIN u.num |->
                SampleJoin(Get(t.num, a, NoSample), Get(u.num, a, NoSample))]]

RECURSIVE TallyFrom(_, _, _)
TallyFrom(seq, k, t) == IF k > Len(seq) THEN t ELSE TallyFrom(seq, k + 1, AddInst(t, seq[k]))
Tally(seq) == TallyFrom(seq, 1, EmptyTable)      \* table of a sequence of instances

(* The instance matches every visible attribute of every instance in t.      *)
Exact(t, i) ==
    \A a \in {x \in Attrs(t) \cup InstAttrs(i) : ~Hidden(x)} :
        /\ a \in Attrs(t)
        /\ a \in InstAttrs(i)
        /\ IF a \in DOMAIN i.num
           THEN /\ a \in DOMAIN t.num
                /\ a \notin DOMAIN t.nom
                /\ t.num[a].n = t.count
                /\ t.num[a].s = BMul(i.num[a], BFrom(t.count))
                /\ BMul(t.num[a].q, BFrom(t.count)) = BMul(t.num[a].s, t.num[a].s)
           ELSE a \in DOMAIN t.nom /\ Get(t.nom[a], i.nom[a], 0) = t.count

(* ------------------------------ scaling --------------------------------- *)
(* cfg.scal is the scaling parameter in units of 10^-4 (0: scaling off);     *)
(* cfg.inner tells whether nested attributes share their inner name's scale. *)
(* hist maps scale names to the sample of every number ever fitted.          *)
ScaleName(cfg, a) == IF cfg.inner THEN Meta[a].inner ELSE a
AddScales(cfg, hist, i) ==
    FoldSet(LAMBDA a, h : LET k == ScaleName(cfg, a)
                          IN With(h, k, SampleAdd(Get(h, k, NoSample), i.num[a])),
            hist, DOMAIN i.num)
\* square of the unit in which attribute a is measured
ScaleSq(cfg, hist, a) ==
    IF cfg.scal = 0 \/ ScaleName(cfg, a) \notin DOMAIN hist THEN FOne
    ELSE LET v == FOver(FTimes(SVar(hist[ScaleName(cfg, a)]), 10000 * 10000), cfg.scal)
             w == FOver(v, cfg.scal)
         IN IF BSign(w) = 0 THEN FOne ELSE w
NumAttrs == {a \in DOMAIN Meta : TRUE}
Scales(cfg, hist) == [a \in {x \in DOMAIN Meta : ScaleName(cfg, x) \in DOMAIN hist} |-> ScaleSq(cfg, hist, a)]
Sc(sc, a) == Get(sc, a, FOne)

(* ------------------- expected correct guesses, utility ------------------ *)
NomGuesses(t, a) ==         \* sum of squared value probabilities
    LET vs == t.nom[a]
        sq == ISum(DOMAIN vs, LAMBDA v : vs[v] * vs[v])
    IN FRat(sq, t.count * t.count)
NumGuesses(t, a, sc) ==     \* P(attr)^2 / sqrt(4 pi sigma^2 + 1)
    LET s == t.num[a]
        v == FDiv(SVar(s), Sc(sc, a))
        d == FSqrt(BAdd(FTimes(FMul(FPi, v), 4), FOne))
    IN FDiv(FRat(s.n * s.n, t.count * t.count), d)
ECG(t, sc) ==
    LET vis == Visible(t)
        sum == BAdd(FSum(vis \cap DOMAIN t.nom, LAMBDA a : NomGuesses(t, a)),
                    FSum(vis \cap DOMAIN t.num, LAMBDA a : NumGuesses(t, a, sc)))
    IN IF vis = {} THEN FZero ELSE FOver(sum, Cardinality(vis))

\* utility of a partition: ts is a nonempty sequence of child tables
RECURSIVE WeightedGuesses(_, _, _, _)
WeightedGuesses(p, ts, k, sc) ==
    IF k > Len(ts) THEN FZero
    ELSE BAdd(FOver(FTimes(ECG(ts[k], sc), ts[k].count), p.count), WeightedGuesses(p, ts, k + 1, sc))
CU(p, ts, sc) == IF Len(ts) = 0 THEN FZero
                 ELSE FOver(BSub(WeightedGuesses(p, ts, 1, sc), ECG(p, sc)), Len(ts))

RelCU(t, i, sc) == BSub(FTimes(ECG(AddInst(t, i), sc), t.count + 1), FTimes(ECG(t, sc), t.count))

(* ------------------ comparison with a logged table ---------------------- *)
(* A logged table has the same shape, with num[a] = [n, m, q]: n, mean and   *)
(* sum of squared deviations as doubles logged by the harness.               *)
NumMatches(s, l) == /\ l.n = s.n
                    /\ Close(FromLog(l.m), SMean(s))
                    /\ Close(FromLog(l.q), SDevSq(s))
SameFun(f, g) == DOMAIN f = DOMAIN g /\ \A x \in DOMAIN f : f[x] = g[x]
TableMatches(t, l) ==
    /\ t.count = l.count
    /\ DOMAIN t.nom = DOMAIN l.nom
    /\ \A a \in DOMAIN t.nom : SameFun(t.nom[a], l.nom[a])
    /\ DOMAIN t.num = DOMAIN l.num
    /\ \A a \in DOMAIN t.num : NumMatches(t.num[a], l.num[a])
=============================================================================
