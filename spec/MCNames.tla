------------------------------ MODULE MCNames -------------------------------
(* Every small attribute, and what renaming and matching owe to each other.  *)
EXTENDS Names, Json
CONSTANTS MaxDepth
VARIABLES a, f
Atoms == {S("?a"), S("?b"), S("c"), S("_h"), S("_")}
One == Atoms \cup {U(q) : q \in UNION {[1..n -> Atoms] : n \in 1..2}}
Two == One \cup {U(<<x, y>>) : x \in Atoms, y \in One} \cup {U(<<S("r"), x, y>>) : x \in One, y \in One}
Terms0 == IF MaxDepth = 1 THEN One ELSE Two
Maps == {[v \in D1 |-> IF v = S("?a") THEN x ELSE y] : D1 \in SUBSET {S("?a"), S("?b")},
                                                     x \in {S("?b"), S("?n"), S("?a")}, y \in {S("?a"), S("?m")}}
Init == a \in Terms0 /\ f \in Maps /\ (f = [v \in {} |-> v] => PrintT("GEN|" \o ToJson(a)))
Next == FALSE /\ UNCHANGED <<a, f>>
Spec == Init /\ [][Next]_<<a, f>>
Distinct == \A x, y \in DOMAIN f : f[x] = f[y] => x = y
Back == [v \in {f[x] : x \in DOMAIN f} |-> CHOOSE x \in DOMAIN f : f[x] = v]
\* a renaming to other names can be undone unless a new name was there before
Undone == Distinct /\ (VarsIn(a) \cap (DOMAIN Back \ DOMAIN f)) = {} => RenAttr(RenAttr(a, f), Back) = a
Moved  == VarsIn(RenAttr(a, f)) = {IF v \in DOMAIN f THEN f[v] ELSE v : v \in VarsIn(a)}
Self   == Partial(a, a, [v \in {} |-> v])
\* what a mapping makes of an attribute is a match for it
Bound  == Partial(a, RenAttr(a, f), f)
Found  == \A v \in VarsIn(a) : Occurs(v, a) /\ v \in NamesIn(a, TRUE)
=============================================================================
