----------------------------- MODULE BigIntTest -----------------------------
(* Prints a table of results; setup runs it with and without the Java        *)
(* override and requires identical output.                                    *)
EXTENDS BigInt, TLC, FiniteSets
Xs == << <<0>>, <<1,1>>, <<-1,1>>, <<1,9999>>, <<1,0,1>>, <<-1,0,0,0,1>>, <<1,9999,9999,9999>>,
        <<-1,1234,5678,9012,3456,7890>>, <<1,1,0,0,0,0,0,1>>, <<1,42,17,9999,0,9999,3>> >>
VARIABLE k
Init == k = 0
Next == /\ k < Len(Xs)
        /\ k' = k + 1
        /\ LET x == Xs[k']
           IN \A j \in 1..Len(Xs) :
                LET y == Xs[j]
                IN PrintT(ToString(<<"R", k', j, BAdd(x, y), BSub(x, y), BMul(x, y), BCmp(x, y),
                            IF BSign(y) = 0 THEN <<0>> ELSE BDiv(x, y), BSqrt(BAbs(x)), BNeg(x),
                            BFrom(k' * 12345678 - 50000000), BLeq(x, y), BLt(x, y), BAbs(x)>>))
Spec == Init /\ [][Next]_k
=============================================================================
