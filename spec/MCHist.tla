------------------------------- MODULE MCHist -------------------------------
(* Every short history of a tree: fits of the instances of a small domain    *)
(* and clears.  The histories are printed for replay in the real code.       *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS Domain, MaxOps
VARIABLE h
I(f, g) == [nom |-> f, num |-> g]
None == [x \in {} |-> ""]
Instances ==
    CASE Domain = "nom" -> {I([a |-> "1"], None), I([a |-> "2"], None), I([a |-> "1", b |-> "1"], None),
                            I([a |-> "2", b |-> "1"], None), I([b |-> "2"], None)}
      [] Domain = "mix" -> {I(None, [x |-> "0"]), I([a |-> "1"], [x |-> "1"]), I([a |-> "1"], [x |-> "2.5"]),
                            I([x |-> "s"], None), I([a |-> "2", x |-> "s"], None)}
      [] Domain = "hid" -> {I([_h |-> "1"], None), I([a |-> "1", _h |-> "1"], None), I([a |-> "1", _h |-> "2"], None),
                            I([a |-> "1"], [_n |-> "3"]), I([a |-> "2"], None)}
      [] Domain = "num" -> {I(None, [x |-> "1"]), I(None, [x |-> "1.5"]), I(None, [x |-> "1", y |-> "-2"]),
                            I(None, [x |-> "40", y |-> "0"]), I(None, [y |-> "7"])}
Ops == {[op |-> "fit", i |-> i] : i \in Instances} \cup {[op |-> "clear"]}
Init == h = <<>>
Next == /\ Len(h) < MaxOps
        /\ \E o \in {x \in Ops : h # <<>> \/ x.op = "fit"} :
                          /\ h' = Append(h, o)
                          /\ Len(h') = MaxOps => PrintT("GEN|" \o ToJson(h'))
Spec == Init /\ [][Next]_h
=============================================================================
