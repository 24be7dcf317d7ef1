------------------------------ MODULE Mapping ------------------------------
(* Mappings of an instance's objects onto a concept's variables: one-to-one, *)
(* each object to a variable of the concept or to itself.                    *)
EXTENDS Integers, FiniteSets
Img(f) == {f[o] : o \in DOMAIN f}
Legal(f, cvars) == /\ \A o \in DOMAIN f : f[o] \in cvars \cup {o}
                   /\ \A o, p \in DOMAIN f : f[o] = f[p] => o = p
SwapTwo(f, a, b) == [f EXCEPT ![a] = IF f[b] = b THEN a ELSE f[b], ![b] = IF f[a] = a THEN b ELSE f[a]]
Swaps(f) == {SwapTwo(f, q[1], q[2]) : q \in {q \in (DOMAIN f) \X (DOMAIN f) : q[1] # q[2] /\ ~(f[q[1]] = q[1] /\ f[q[2]] = q[2])}}
Moves(f, cvars) == {[f EXCEPT ![q[1]] = q[2]] : q \in (DOMAIN f) \X (cvars \ Img(f))}
Neighbours(f, cvars) == Swaps(f) \cup Moves(f, cvars)
\* the mappings one step before f
Before(f, cvars) == Neighbours(f, cvars) \cup {[f EXCEPT ![o] = o] : o \in DOMAIN f}
=============================================================================
