------------------------------- MODULE BigInt -------------------------------
(* Arbitrary-precision integers for TLC, whose built-in integers are 32-bit. *)
(*                                                                           *)
(* A big integer is a sequence <<sign, l1, l2, ..., lk>> with sign in        *)
(* {-1,0,1} and little-endian limbs l1..lk in 0..9999 (base 10^4), lk # 0.   *)
(* Zero is <<0>>.  Representation is canonical, so "=" is equality of        *)
(* numbers.  The definitions below are the meaning of the operators.         *)
(* java/BigInt.java provides the same operators as a TLC module override     *)
(* (speed only); setup runs BigIntTest both ways and compares the results.   *)
EXTENDS Integers, Sequences

LOCAL Base == 10000

(* ---- magnitudes: canonical little-endian limb sequences, <<>> is zero ---- *)
RECURSIVE Trim(_)
LOCAL Trim(m) == IF m = <<>> THEN <<>>
                 ELSE IF m[Len(m)] = 0 THEN Trim(SubSeq(m, 1, Len(m) - 1)) ELSE m

LOCAL Limb(m, i) == IF i <= Len(m) THEN m[i] ELSE 0
LOCAL Max2(a, b) == IF a >= b THEN a ELSE b

RECURSIVE MAddFrom(_, _, _, _, _)
LOCAL MAddFrom(a, b, i, carry, acc) ==
    IF i > Max2(Len(a), Len(b))
    THEN IF carry = 0 THEN acc ELSE Append(acc, carry)
    ELSE LET t == Limb(a, i) + Limb(b, i) + carry
         IN MAddFrom(a, b, i + 1, t \div Base, Append(acc, t % Base))
LOCAL MAdd(a, b) == MAddFrom(a, b, 1, 0, <<>>)

RECURSIVE MCmpFrom(_, _, _)
LOCAL MCmpFrom(a, b, i) ==
    IF i = 0 THEN 0
    ELSE IF a[i] < b[i] THEN -1
    ELSE IF a[i] > b[i] THEN 1
    ELSE MCmpFrom(a, b, i - 1)
LOCAL MCmp(a, b) == IF Len(a) < Len(b) THEN -1
                    ELSE IF Len(a) > Len(b) THEN 1
                    ELSE MCmpFrom(a, b, Len(a))

RECURSIVE MSubFrom(_, _, _, _, _)
LOCAL MSubFrom(a, b, i, borrow, acc) ==     \* requires a >= b
    IF i > Len(a) THEN Trim(acc)
    ELSE LET t == a[i] - Limb(b, i) - borrow
         IN IF t < 0 THEN MSubFrom(a, b, i + 1, 1, Append(acc, t + Base))
                     ELSE MSubFrom(a, b, i + 1, 0, Append(acc, t))
LOCAL MSub(a, b) == MSubFrom(a, b, 1, 0, <<>>)

RECURSIVE MScaleFrom(_, _, _, _, _)
LOCAL MScaleFrom(a, d, i, carry, acc) ==    \* a * d for one limb d
    IF i > Len(a) THEN IF carry = 0 THEN acc ELSE Append(acc, carry)
    ELSE LET t == a[i] * d + carry
         IN MScaleFrom(a, d, i + 1, t \div Base, Append(acc, t % Base))
LOCAL MScale(a, d) == IF d = 0 THEN <<>> ELSE MScaleFrom(a, d, 1, 0, <<>>)
LOCAL MShift1(a) == IF a = <<>> THEN <<>> ELSE <<0>> \o a

RECURSIVE MMulFrom(_, _, _)
LOCAL MMulFrom(a, b, i) ==                  \* a * b[i..], Horner scheme
    IF i > Len(b) THEN <<>>
    ELSE MAdd(MScale(a, b[i]), MShift1(MMulFrom(a, b, i + 1)))
LOCAL MMul(a, b) == MMulFrom(a, b, 1)

RECURSIVE QDigit(_, _, _, _)
LOCAL QDigit(r, b, lo, hi) ==               \* largest d in lo..hi with b*d <= r
    IF lo = hi THEN lo
    ELSE LET mid == (lo + hi + 1) \div 2
         IN IF MCmp(MScale(b, mid), r) <= 0 THEN QDigit(r, b, mid, hi)
                                            ELSE QDigit(r, b, lo, mid - 1)
RECURSIVE MDivFrom(_, _, _, _, _)
LOCAL MDivFrom(a, b, i, r, q) ==            \* long division, most significant first
    IF i = 0 THEN Trim(q)
    ELSE LET r1 == Trim(<<a[i]>> \o r)
             d  == QDigit(r1, b, 0, Base - 1)
         IN MDivFrom(a, b, i - 1, MSub(r1, MScale(b, d)), <<d>> \o q)
LOCAL MDiv(a, b) == MDivFrom(a, b, Len(a), <<>>, <<>>)

RECURSIVE MSqrtIt(_, _)
LOCAL MSqrtIt(n, x) ==                      \* Newton from above, floor sqrt
    LET y == MDiv(MAdd(x, MDiv(n, x)), <<2>>)
    IN IF MCmp(y, x) >= 0 THEN x ELSE MSqrtIt(n, y)
RECURSIVE MPow(_)
LOCAL MPow(k) == IF k = 0 THEN <<1>> ELSE MShift1(MPow(k - 1))
LOCAL MSqrt(n) == IF n = <<>> THEN <<>> ELSE MSqrtIt(n, MPow((Len(n) + 1) \div 2))

LOCAL Mag(x) == SubSeq(x, 2, Len(x))
LOCAL Mk(s, m) == IF m = <<>> THEN <<0>> ELSE <<s>> \o m

RECURSIVE NatLimbs(_)
LOCAL NatLimbs(n) == IF n = 0 THEN <<>> ELSE <<n % Base>> \o NatLimbs(n \div Base)

(* ------------------------------ operators ------------------------------- *)
BFrom(n)   == IF n = 0 THEN <<0>> ELSE IF n > 0 THEN Mk(1, NatLimbs(n)) ELSE Mk(-1, NatLimbs(-n))
BNeg(x)    == Mk(-x[1], Mag(x))
BAbs(x)    == IF x[1] < 0 THEN Mk(1, Mag(x)) ELSE x
BSign(x)   == x[1]
BAdd(x, y) ==
    IF x[1] = 0 THEN y ELSE IF y[1] = 0 THEN x
    ELSE IF x[1] = y[1] THEN Mk(x[1], MAdd(Mag(x), Mag(y)))
    ELSE IF MCmp(Mag(x), Mag(y)) >= 0 THEN Mk(x[1], MSub(Mag(x), Mag(y)))
    ELSE Mk(y[1], MSub(Mag(y), Mag(x)))
BSub(x, y) == BAdd(x, BNeg(y))
BMul(x, y) == IF x[1] = 0 \/ y[1] = 0 THEN <<0>> ELSE Mk(x[1] * y[1], MMul(Mag(x), Mag(y)))
BDiv(x, y) == \* truncates toward zero; y # 0
    IF x[1] = 0 THEN <<0>> ELSE Mk(x[1] * y[1], MDiv(Mag(x), Mag(y)))
BSqrt(x)   == Mk(1, MSqrt(Mag(x)))          \* floor of the square root, x >= 0
BCmp(x, y) ==
    IF x[1] # y[1] THEN (IF x[1] < y[1] THEN -1 ELSE 1)
    ELSE IF x[1] = 0 THEN 0
    ELSE x[1] * MCmp(Mag(x), Mag(y))
BLeq(x, y) == BCmp(x, y) <= 0
BLt(x, y)  == BCmp(x, y) < 0
=============================================================================
