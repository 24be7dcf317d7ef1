------------------------------- MODULE Names --------------------------------
(* The names inside structured attributes: finding, renaming and comparing.  *)
EXTENDS Terms
Unseen(a) == IF IsU(a) THEN a.u[1] = S("_") ELSE Initial(a) \in {"", "_"}
RECURSIVE Pieces(_)
Pieces(a) == {a} \cup (IF IsU(a) THEN UNION {Pieces(a.u[i]) : i \in 1..Len(a.u)} ELSE {})
NamesIn(a, all) == IF all THEN {p \in Pieces(a) : ~Unseen(p)} ELSE VarsIn(a)
NamesOf(S1, all) == UNION {NamesIn(a, all) : a \in S1}
Occurs(c, a) == c \in Pieces(a)
\* the parts of a relation are renamed, not the relation as a whole
RenParts(a, f) == U([i \in 1..Len(a.u) |-> RenAttr(a.u[i], f)])
RECURSIVE Partial(_, _, _)
Partial(a, b, f) ==
    IF IsU(a) \/ IsU(b)
    THEN /\ IsU(a) /\ IsU(b) /\ Len(a.u) = Len(b.u)
         /\ \A i \in 1..Len(a.u) : Partial(a.u[i], b.u[i], f)
    ELSE IF IsVar(a) /\ a \in DOMAIN f THEN f[a] = b
    ELSE IF IsVar(a) /\ IsVar(b) THEN TRUE
    ELSE a = b
=============================================================================
