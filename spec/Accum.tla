------------------------------- MODULE Accum -------------------------------
(* Accumulators of numbers (ContinuousValue).  reg is what the user means by *)
(* an accumulator: the exact statistics of the multiset of numbers put into  *)
(* it.  alg is the streaming algorithm (Welford/Knuth update, Chan combine)  *)
(* in fixed-point arithmetic; MCAccum checks that it computes the same.      *)
EXTENDS Stats, Sequences, TLC
VARIABLES reg, alg
Regs == DOMAIN reg
avars == <<reg, alg>>
NoAlg == [n |-> 0, m |-> FZero, q |-> FZero]

AlgUpdate(a, x) ==
    LET d  == BSub(FVal(x), a.m)
        m2 == BAdd(a.m, FOver(d, a.n + 1))
    IN [n |-> a.n + 1, m |-> m2, q |-> BAdd(a.q, FMul(d, BSub(FVal(x), m2)))]
AlgCombine(a, b) ==
    IF b.n = 0 THEN a
    ELSE LET d == BSub(b.m, a.m)
         IN [n |-> a.n + b.n,
             m |-> FOver(BAdd(FTimes(a.m, a.n), FTimes(b.m, b.n)), a.n + b.n),
             q |-> BAdd(BAdd(a.q, b.q), FOver(FTimes(FMul(d, d), a.n * b.n), a.n + b.n))]
RECURSIVE Folded(_, _, _, _)
Folded(f(_, _), a, xs, k) == IF k > Len(xs) THEN a ELSE Folded(f, f(a, xs[k]), xs, k + 1)

AccInit(R) == reg = [r \in R |-> NoSample] /\ alg = [r \in R |-> NoAlg]
New(r)        == reg' = [reg EXCEPT ![r] = NoSample] /\ alg' = [alg EXCEPT ![r] = NoAlg]
Update(r, x)  == reg' = [reg EXCEPT ![r] = SampleAdd(@, x)] /\ alg' = [alg EXCEPT ![r] = AlgUpdate(@, x)]
Batch(r, xs)  == /\ reg' = [reg EXCEPT ![r] = Folded(SampleAdd, @, xs, 1)]
                 /\ alg' = [alg EXCEPT ![r] = Folded(AlgUpdate, @, xs, 1)]
\* the numbers xs again and again, k times over
Repeat(r, xs, k) ==
    LET s == Folded(SampleAdd, NoSample, xs, 1)
        a == Folded(AlgUpdate, NoAlg, xs, 1)
    IN /\ reg' = [reg EXCEPT ![r] = SampleJoin(@, [n |-> s.n * k, s |-> BMul(s.s, BFrom(k)), q |-> BMul(s.q, BFrom(k))])]
       /\ alg' = [alg EXCEPT ![r] = AlgCombine(@, [n |-> a.n * k, m |-> a.m, q |-> FTimes(a.q, k)])]
Copy(r, to)   == reg' = [reg EXCEPT ![to] = reg[r]] /\ alg' = [alg EXCEPT ![to] = alg[r]]
\* o may be r itself: its numbers then count twice
Combine(r, o) == /\ reg' = [reg EXCEPT ![r] = SampleJoin(@, reg[o])]
                 /\ alg' = [alg EXCEPT ![r] = AlgCombine(@, alg[o])]

(* ------------------------- derived quantities --------------------------- *)
Noise == FDiv(FOne, FTimes(FPi, 4))
\* integral of the product of the two noisy Gaussians
Overlap(a, b) ==
    LET s == BAdd(BAdd(SVar(a), SVar(b)), FTimes(Noise, 2))
        d == BSub(SMean(a), SMean(b))
    IN FDiv(FExpNeg(FDiv(FMul(d, d), FTimes(s, 2))), FSqrt(FMul(FTimes(FPi, 2), s)))

AlgAgrees == \A r \in Regs : /\ alg[r].n = reg[r].n
                             /\ CloseTo(alg[r].m, SMean(reg[r]), Tol9)
                             /\ CloseTo(alg[r].q, SDevSq(reg[r]), Tol9)
NonNegative == \A r \in Regs : BSign(SDevSq(reg[r])) >= 0 /\ BSign(SVar(reg[r])) >= 0
OverlapBounded == \A r, o \in Regs : LET p == Overlap(reg[r], reg[o])
                                     IN BSign(p) >= 0 /\ BLeq(p, BAdd(FOne, Tol9))
=============================================================================
