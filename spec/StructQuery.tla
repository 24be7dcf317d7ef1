---------------------------- MODULE StructQuery ----------------------------
(* Asking a Trestle tree about a structured instance: the instance is        *)
(* flattened, its objects are matched to the root's variables by a mapping   *)
(* no single swap or reassignment improves, and the flat instance so         *)
(* obtained is sorted to a leaf.  Values of the instance are the terms       *)
(* [v |-> [nom |-> ..]] and [v |-> [num |-> ..]].                            *)
EXTENDS Cobweb
Tm == INSTANCE Terms
Mp == INSTANCE Mapping

RECURSIVE Repr(_), Reprs(_, _)
Reprs(q, i) == IF i > Len(q) THEN "" ELSE (IF i = 1 THEN "" ELSE ", ") \o Repr(q[i]) \o Reprs(q, i + 1)
Repr(a) == IF Tm!IsU(a) THEN "(" \o Reprs(a.u, 1) \o (IF Len(a.u) = 1 THEN ",)" ELSE ")") ELSE "'" \o a.s \o "'"

Flatten(x) == Tm!Extract(Tm!Flat(x))
ValueOf(t) == IF Tm!Is(t, "o") THEN [nom |-> t.o] ELSE t.v
IsNomVal(t) == DOMAIN ValueOf(t) = {"nom"}
\* a flat term as an instance of the machine
Plain(y) ==
    LET noms == {p \in y.d : IsNomVal(p[2])}
        nums == y.d \ noms
        at(P, k) == ValueOf((CHOOSE p \in P : Repr(p[1]) = k)[2])
    IN [nom |-> [k \in {Repr(p[1]) : p \in noms} |-> at(noms, k).nom],
        num |-> [k \in {Repr(p[1]) : p \in nums} |-> at(nums, k).num]]

\* every way to match the objects of y to the variables cv
Matchings(y, cv) == {f \in [Tm!Vars(y) -> cv \cup Tm!Vars(y)] : Mp!Legal(f, cv)}
\* those at which the search for a matching may end
Settled(y, cv, sc) ==
    IF cv = {} THEN {[o \in Tm!Vars(y) |-> o]}
    ELSE LET M == Matchings(y, cv)
             w == TLCEval([f \in M |-> ECG(AddInst(T(root), Plain(Tm!Rename(y, f))), sc)])
             near(a, b) == BLeq(BSub(a, b), Eps)
             top(f) == \A g \in Mp!Neighbours(f, cv) : near(w[g], w[f])
             tops == {f \in M : top(f)}
         IN tops \cup {f \in M : \E g \in Mp!Before(f, cv) \cap tops : near(w[g], w[f]) /\ near(w[f], w[g])}
\* the leaves a structured instance may be sorted to, matched by f
LeavesFor(y, f, sc) == SortTo(root, Plain(Tm!Rename(y, f)), sc)

RECURSIVE Contains(_, _)
\* z has everything x has, under the same names
Contains(z, x) == \A p \in x.d : /\ p[1] \in Tm!Keys(z)
                                 /\ IF Tm!IsD(p[2]) THEN Tm!IsD(Tm!At(z, p[1])) /\ Contains(Tm!At(z, p[1]), p[2])
                                    ELSE Tm!At(z, p[1]) = p[2]
=============================================================================
