-------------------------------- MODULE Fix --------------------------------
(* Fixed-point reals on top of BigInt: the integer X denotes X / 10^20.      *)
(* Every operation truncates, so results carry an error of a few units in    *)
(* the 20th decimal; comparisons against the implementation's doubles use    *)
(* the tolerances below, nine or more orders of magnitude wider.             *)
EXTENDS BigInt, FiniteSets

FOne  == <<1, 0, 0, 0, 0, 0, 1>>                 \* 10^20
FZero == <<0>>
FPi   == <<1, 3846, 7932, 3589, 9265, 1415, 3>>   \* pi
FLn2  == <<1, 941, 9453, 559, 4718, 6931>>       \* ln 2

FInt(n)      == BMul(BFrom(n), FOne)
FMul(x, y)   == BDiv(BMul(x, y), FOne)
FDiv(x, y)   == BDiv(BMul(x, FOne), y)
FRat(a, b)   == BDiv(BMul(BFrom(a), FOne), BFrom(b))   \* a/b for TLC integers
FSqrt(x)     == BSqrt(BMul(x, FOne))
FAdd(x, y)   == BAdd(x, y)
FSub(x, y)   == BSub(x, y)
FTimes(x, n) == BMul(x, BFrom(n))
FOver(x, n)  == BDiv(x, BFrom(n))
FMax(x, y)   == IF BLt(x, y) THEN y ELSE x

(* e^-y for y >= 0 : halve y until it is below 1, Taylor, square back.       *)
RECURSIVE ExpTerms(_, _, _, _)
ExpTerms(y, k, term, acc) ==
    IF k > 24 THEN acc
    ELSE LET t == BNeg(FOver(FMul(term, y), k))
         IN ExpTerms(y, k + 1, t, BAdd(acc, t))
RECURSIVE FExpNeg(_)
FExpNeg(y) ==
    IF BLt(FInt(60), y) THEN FZero
    ELSE IF BLt(y, FOne) THEN ExpTerms(y, 1, FOne, FOne)
    ELSE LET h == FExpNeg(FOver(y, 2)) IN FMul(h, h)

(* natural logarithm of x > 0                                                *)
RECURSIVE AtanhTerms(_, _, _, _)
AtanhTerms(z2, k, pw, acc) ==
    IF k > 61 THEN acc
    ELSE AtanhTerms(z2, k + 2, FMul(pw, z2), BAdd(acc, FOver(pw, k)))
RECURSIVE FLn(_)
FLn(x) ==
    IF BLt(FRat(3, 2), x) THEN BAdd(FLn(FOver(x, 2)), FLn2)
    ELSE IF BLt(x, FRat(3, 4)) THEN BSub(FLn(FTimes(x, 2)), FLn2)
    ELSE LET z == FDiv(BSub(x, FOne), BAdd(x, FOne))
         IN FTimes(AtanhTerms(FMul(z, z), 1, z, FZero), 2)

(* The harness logs a double d as the integer round(d * 10^12).              *)
FromLog(v) == BMul(v, <<1, 0, 0, 1>>)            \* * 10^8

(* |a - b| <= tol * max(1, |b|)                                              *)
CloseTo(a, b, tol) == BLeq(BAbs(BSub(a, b)), FMul(tol, FMax(FOne, BAbs(b))))
Tol9 == <<1, 0, 0, 1000>>                        \* 10^-9   (10^11)
Tol8 == <<1, 0, 0, 0, 1>>                        \* 10^-8   (10^12)
Tol6 == <<1, 0, 0, 0, 100>>                      \* 10^-6   (10^14)
Close(a, b) == CloseTo(a, b, Tol8)
=============================================================================
