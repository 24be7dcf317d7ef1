------------------------------- MODULE FixTest -------------------------------
(* Known values of the fixed-point functions (run by setup).                 *)
EXTENDS Stats, TLC
VARIABLE k
Init == k = 0
Next == k < 1 /\ k' = 1
Spec == Init /\ [][Next]_k
Near(a, b) == BLeq(BAbs(BSub(a, b)), <<1, 0, 100>>)   \* 10^-14
ASSUME Near(FExpNeg(FOne), <<1, 2159, 4423, 1171, 7944, 3678>>)
ASSUME Near(FExpNeg(FInt(10)), <<1, 8485, 7624, 9929, 4539>>)
ASSUME Near(FExpNeg(FRat(7, 3)), <<1, 6280, 4050, 7864, 7196, 969>>)
ASSUME Near(FExpNeg(FRat(1, 9)), <<1, 7458, 3697, 6814, 3931, 8948>>)
ASSUME Near(FLn(FInt(10)), <<1, 8401, 456, 2994, 8509, 3025, 2>>)
ASSUME Near(FLn(FRat(1, 1000)), <<-1, 5206, 1370, 8982, 5527, 9077, 6>>)
ASSUME Near(FLn(FRat(123456, 7)), <<1, 3005, 876, 7210, 2994, 7777, 9>>)
ASSUME Near(FSqrt(FInt(2)), <<1, 4880, 950, 2373, 1356, 4142, 1>>)
ASSUME Near(FSqrt(C4SqOf(2)), <<1, 5587, 8653, 802, 8456, 7978>>)
ASSUME Near(FSqrt(C4SqOf(5)), <<1, 8840, 6251, 2986, 8560, 9399>>)
ASSUME Near(FSqrt(C4SqOf(29)), <<1, 7984, 9841, 8241, 1304, 9911>>)
=============================================================================
