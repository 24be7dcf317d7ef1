------------------------------- MODULE Stats -------------------------------
(* Batch statistics of a multiset of decimal numbers.  A sample is kept as   *)
(* [n, s, q]: how many values, their exact sum and their exact sum of        *)
(* squares.  Values are integers in units of 10^-4, so s is in 10^-4 and q   *)
(* in 10^-8; nothing is rounded until a mean or deviation is asked for.      *)
EXTENDS Fix

NoSample == [n |-> 0, s |-> <<0>>, q |-> <<0>>]
SampleAdd(a, x) == [n |-> a.n + 1, s |-> BAdd(a.s, x), q |-> BAdd(a.q, BMul(x, x))]
SampleJoin(a, b) == [n |-> a.n + b.n, s |-> BAdd(a.s, b.s), q |-> BAdd(a.q, b.q)]

U4 == <<1, 0, 0, 0, 0, 1>>                        \* 10^16: value units -> Fix
U8 == <<1, 0, 0, 0, 1>>                           \* 10^12: squared units -> Fix
FVal(x) == BMul(x, U4)

SMean(a)  == IF a.n = 0 THEN FZero ELSE BDiv(BMul(a.s, U4), BFrom(a.n))
\* sum of squared deviations from the mean: q - s^2/n
SDevSq(a) == IF a.n = 0 THEN FZero
             ELSE BDiv(BMul(BSub(BMul(a.q, BFrom(a.n)), BMul(a.s, a.s)), U8), BFrom(a.n))

(* c4(n)^2, the squared small-sample correction of the standard deviation,   *)
(* from its recurrence c4(2)^2 = 2/pi, c4(n+1)^2 * c4(n)^2 = (n-1)/n.        *)
(* The library stops correcting at n >= 30.                                  *)
RECURSIVE C4Sq(_)
C4Sq(n) == IF n >= 30 THEN FOne
           ELSE IF n = 2 THEN FDiv(FInt(2), FPi)
           ELSE FDiv(FRat(n - 2, n - 1), C4Sq(n - 1))
C4Table == [n \in 2..30 |-> C4Sq(n)]
C4SqOf(n) == IF n >= 30 THEN FOne ELSE C4Table[n]

\* squared unbiased standard deviation
SVar(a)  == IF a.n < 2 THEN FZero
            ELSE FDiv(FOver(SDevSq(a), a.n - 1), C4SqOf(a.n))
SStd(a)  == FSqrt(SVar(a))
\* population standard deviation
SPopVar(a) == FOver(SDevSq(a), a.n)
=============================================================================
