------------------------------- MODULE Choice -------------------------------
(* Choosing among weighted alternatives, and the batch statistics helpers.   *)
(* Weights are integers in units of 10^-4.                                   *)
EXTENDS Stats, Sequences, FiniteSetsExt, TLC
Weight(ch, v) == FoldSet(LAMBDA k, a : IF ch[k].v = v THEN ch[k].w + a ELSE a, 0, 1..Len(ch))
Vals(ch) == {ch[k].v : k \in 1..Len(ch)}
Total(ch) == FoldSet(LAMBDA k, a : ch[k].w + a, 0, 1..Len(ch))
Refused(ch) == Len(ch) = 0 \/ \E k \in 1..Len(ch) : ch[k].w < 0
MaxW(ch) == FoldSet(LAMBDA k, m : IF ch[k].w > m THEN ch[k].w ELSE m, 0, 1..Len(ch))
Likeliest(ch) == {ch[k].v : k \in {j \in 1..Len(ch) : ch[j].w = MaxW(ch)}}
Possible(ch)  == {v \in Vals(ch) : Weight(ch, v) > 0}
\* the draw u (0 <= u < total) falls into the share of the k-th alternative
Below(ch, k) == FoldSet(LAMBDA j, a : ch[j].w + a, 0, 1..(k - 1))
ByDraw(ch, u) == ch[CHOOSE k \in 1..Len(ch) : Below(ch, k) <= u /\ u < Below(ch, k) + ch[k].w].v
\* c of n draws fell on an alternative of share w/t: within seven deviations
Plausible(c, n, w, t) ==
    LET d == BSub(BMul(BFrom(c), BFrom(t)), BMul(BFrom(n), BFrom(w)))
        v == BMul(BMul(BFrom(49), BFrom(n)), BMul(BFrom(w), BFrom(t - w)))
    IN BLeq(BMul(d, d), BAdd(v, BMul(BFrom(9), BMul(BFrom(t), BFrom(t)))))
=============================================================================
