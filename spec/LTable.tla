------------------------------- MODULE LTable -------------------------------
(* Scores of logged tables: the same definitions as in Concept, on tables    *)
(* whose numbers are given by count, mean and squared deviations.            *)
EXTENDS Snapshot
LS(l) == [n |-> l.n, m |-> FromLog(l.m), q |-> FromLog(l.q)]
LVar(s) == IF s.n < 2 THEN FZero ELSE FDiv(FOver(s.q, s.n - 1), C4SqOf(s.n))
LJoin(a, b) ==
    IF a.n = 0 THEN b ELSE IF b.n = 0 THEN a
    ELSE LET d == BSub(b.m, a.m)
         IN [n |-> a.n + b.n, m |-> FOver(BAdd(FTimes(a.m, a.n), FTimes(b.m, b.n)), a.n + b.n),
             q |-> BAdd(BAdd(a.q, b.q), FOver(FTimes(FMul(d, d), a.n * b.n), a.n + b.n))]
LNo == [n |-> 0, m |-> FZero, q |-> FZero]
LTab(t) == [count |-> t.count, nom |-> t.nom, num |-> [a \in DOMAIN t.num |-> LS(t.num[a])]]
LAdd(t, u) ==
    [count |-> t.count + u.count,
     nom |-> [a \in DOMAIN t.nom \cup DOMAIN u.nom |->
                LET x == Get(t.nom, a, None)  y == Get(u.nom, a, None)
                IN [v \in DOMAIN x \cup DOMAIN y |-> Get(x, v, 0) + Get(y, v, 0)]],
     num |-> [a \in DOMAIN t.num \cup DOMAIN u.num |-> LJoin(Get(t.num, a, LNo), Get(u.num, a, LNo))]]
\* squared unit of attribute a, from the logged scales
LScaleSq(c, sc, a) ==
    IF c.kind = "cobweb" \/ c.scal = 0 \/ ScaleName(c, a) \notin DOMAIN sc THEN FOne
    ELSE LET v == FOver(FOver(FTimes(LVar(LS(sc[ScaleName(c, a)])), 10000 * 10000), c.scal), c.scal)
         IN IF BSign(v) = 0 THEN FOne ELSE v
LNumGuesses(t, a, c, sc) ==
    LET s == t.num[a]
        d == FSqrt(BAdd(FTimes(FMul(FPi, FDiv(LVar(s), LScaleSq(c, sc, a))), 4), FOne))
    IN FDiv(FRat(s.n * s.n, t.count * t.count), d)
LECG(t, c, sc) ==
    LET vis == Visible(t)
        sum == BAdd(FSum(vis \cap DOMAIN t.nom, LAMBDA a : NomGuesses(t, a)),
                    FSum(vis \cap DOMAIN t.num, LAMBDA a : LNumGuesses(t, a, c, sc)))
    IN IF vis = {} THEN FZero ELSE FOver(sum, Cardinality(vis))
RECURSIVE LWeighted(_, _, _, _, _)
LWeighted(p, ts, k, c, sc) ==
    IF k > Len(ts) THEN FZero
    ELSE BAdd(FOver(FTimes(LECG(ts[k], c, sc), ts[k].count), p.count), LWeighted(p, ts, k + 1, c, sc))
LCU(p, ts, c, sc) == FOver(BSub(LWeighted(p, ts, 1, c, sc), LECG(p, c, sc)), Len(ts))

(* log-likelihood of a leaf u under a concept t *)
LOverlap(a, b) ==
    LET s == BAdd(BAdd(LVar(a), LVar(b)), FDiv(FOne, FTimes(FPi, 2)))
        d == BSub(a.m, b.m)
    IN FDiv(FExpNeg(FDiv(FMul(d, d), FTimes(s, 2))), FSqrt(FMul(FTimes(FPi, 2), s)))
\* ln of the overlap, without underflow
LLnOverlap(a, b) ==
    LET s == BAdd(BAdd(LVar(a), LVar(b)), FDiv(FOne, FTimes(FPi, 2)))
        d == BSub(a.m, b.m)
    IN BSub(BNeg(FDiv(FMul(d, d), FTimes(s, 2))), FOver(FLn(FMul(FTimes(FPi, 2), s)), 2))
Freq(t, a, v) == IF a \in DOMAIN t.nom THEN Get(t.nom[a], v, 0) ELSE 0
Missing(t, a) == t.count - (IF a \in DOMAIN t.nom THEN ISum(DOMAIN t.nom[a], LAMBDA v : t.nom[a][v]) ELSE 0)
                         - Get(t.num, a, LNo).n
LLAttr(t, u, a) ==
    LET syms == IF a \in DOMAIN u.nom THEN {v \in DOMAIN u.nom[a] : u.nom[a][v] > 0} ELSE {}
        term(f, g) == FLn(FMul(FRat(f, t.count), FRat(g, u.count)))
    IN BAdd(BAdd(FSum(syms, LAMBDA v : term(Freq(t, a, v), Freq(u, a, v))),
                 IF Missing(u, a) > 0 THEN term(Missing(t, a), Missing(u, a)) ELSE FZero),
            IF a \in DOMAIN t.num /\ a \in DOMAIN u.num
            THEN BAdd(term(t.num[a].n, u.num[a].n), LLnOverlap(t.num[a], u.num[a])) ELSE FZero)
LogLik(t, u) == FSum(Visible(t) \cup Visible(u), LAMBDA a : LLAttr(t, u, a))
=============================================================================
