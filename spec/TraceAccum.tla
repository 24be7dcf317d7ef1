----------------------------- MODULE TraceAccum -----------------------------
(* Recorded accumulator histories: after every operation every register's    *)
(* accessors must report the statistics of its multiset (C11).               *)
EXTENDS Accum, TraceLib
VARIABLES tr, l
Evs == Traces[tr].ev
TInit == tr \in 1..Len(Traces) /\ l = 0 /\ AccInit(1..Traces[tr].regs)
Do(e) == CASE e.op = "new"   -> New(e.r)
           [] e.op = "upd"   -> Update(e.r, e.x)
           [] e.op = "batch" -> Batch(e.r, e.xs)
           [] e.op = "many"  -> Repeat(e.r, e.xs, e.k)
           [] e.op = "copy"  -> Copy(e.r, e.to)
           [] e.op = "comb"  -> Combine(e.r, e.o)
LF(v) == FromLog(v)
Tol12 == <<1, 0, 0, 1>>                     \* 10^-12
\* The error a streaming computation may make in the sum of squared
\* deviations: relative to it, to the rounding of the data (Q = exact sum of
\* squares, 10^-19 of it) and to the resolution of the log.
QTol(s) == BAdd(BAdd(FMul(<<1, 0, 0, 2000>>, SDevSq(s)),
                     BDiv(BMul(s.q, U8), <<1, 0, 0, 0, 0, 1000>>)), <<1, 0, 0, 10>>)
Within(a, b, tol) == BLeq(BAbs(BSub(a, b)), tol)
Near(v, s) == Within(LF(v), SDevSq(s), QTol(s))
\* deviations are compared squared, so that sqrt near zero is no problem;
\* v * k is the deviation in the units of the data
NearSq(v, k, sq, s, n) == LET d == FMul(LF(v), k) IN
    Within(FMul(d, d), sq, BAdd(BAdd(FOver(FTimes(QTol(s), 2), n), FMul(<<1, 0, 0, 1000>>, sq)), <<1, 0, 0, 10>>))
Less1(n) == IF n > 1 THEN n - 1 ELSE 1
Verdict(e) ==
    LET ok(P(_, _)) == \A r \in Regs : P(reg'[r], e.regs[r])
    IN Clause("the count is the number of numbers added", ok(LAMBDA s, g : g.n = s.n /\ g.jn = s.n))
       \cup Clause("the mean is the mean of the numbers added",
                   ok(LAMBDA s, g : LET tol == IF s.n < 3000 THEN Tol12 ELSE Tol9
                                    IN /\ CloseTo(LF(g.m), SMean(s), tol)
                                       /\ CloseTo(LF(g.um), SMean(s), tol)
                                       /\ CloseTo(LF(g.jm), SMean(s), tol)))
       \cup Clause("the spread is the sum of squared deviations of the numbers added",
                   ok(LAMBDA s, g : Near(g.q, s)))
       \cup Clause("the biased deviation is the population deviation",
                   ok(LAMBDA s, g : s.n > 0 => NearSq(g.bstd, FOne, SPopVar(s), s, s.n)))
       \cup Clause("the unbiased deviation is Bessel's with the small-sample correction",
                   ok(LAMBDA s, g : /\ NearSq(g.ustd, FOne, SVar(s), s, Less1(s.n))
                                    /\ NearSq(g.jstd, FOne, SVar(s), s, Less1(s.n))))
       \cup Clause("scaled forms are the plain ones in units of the scale",
                   ok(LAMBDA s, g :
                        LET k == IF BSign(g.scale) <= 0 THEN FOne ELSE FVal(g.scale)
                        IN /\ NearSq(g.sustd, k, SVar(s), s, Less1(s.n))
                           /\ s.n > 0 => NearSq(g.sbstd, k, SPopVar(s), s, s.n)
                           /\ CloseTo(LF(g.sm), FDiv(BSub(SMean(s), FVal(g.shift)), k), Tol9)))
       \cup Clause("the overlap of two accumulators is that of their noisy Gaussians",
                   \A k \in 1..Len(e.over) :
                      CloseTo(LF(e.over[k].v), Overlap(reg'[e.over[k].a], reg'[e.over[k].b]), Tol6))
TNext == /\ l < Len(Evs) /\ l' = l + 1 /\ tr' = tr
         /\ LET e == Evs[l + 1]
            IN IF e.op = "err" THEN /\ UNCHANGED avars
                                    /\ Report(tr, l + 1, {"a valid operation fails: " \o e.err})
               ELSE Do(e) /\ Report(tr, l + 1, Verdict(e))
         /\ l' = Len(Evs) => Done(tr, l')
TSpec == TInit /\ [][TNext]_<<avars, tr, l>>
=============================================================================
