------------------------------ MODULE MCChoice ------------------------------
(* Every list of at most MaxLen alternatives with small weights: drawing by  *)
(* shares gives each alternative exactly its weight of the draws.  Lists are *)
(* printed for replay.                                                       *)
EXTENDS Choice, Json
CONSTANT MaxLen
VARIABLE ch
Alt == {[v |-> v, w |-> w] : v \in {"a", "b", "c"}, w \in {-1, 0, 1, 3}}
MCInit == ch = <<>> /\ PrintT("GEN|" \o ToJson(ch))
MCNext == /\ Len(ch) < MaxLen
          /\ \E x \in Alt : ch' = Append(ch, x) /\ PrintT("GEN|" \o ToJson(ch'))
MCSpec == MCInit /\ [][MCNext]_ch
Good == ~Refused(ch) /\ Total(ch) > 0
Shares == Good => \A v \in Vals(ch) :
             Cardinality({u \in 0..(Total(ch) - 1) : ByDraw(ch, u) = v}) = Weight(ch, v)
LikelyPossible == Good => Likeliest(ch) # {} /\ Likeliest(ch) \subseteq Possible(ch)
=============================================================================
