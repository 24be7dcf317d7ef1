-------------------------------- MODULE Pipe --------------------------------
(* Preprocessors and their composition.  A part leaves its mark on the       *)
(* instance (a sequence of marks) and undoing takes the mark away again; a   *)
(* one-way part cannot be undone.  A pipeline is [p |-> sequence of parts    *)
(* and pipelines].                                                           *)
EXTENDS Integers, Sequences
IsPipe(x) == "p" \in DOMAIN x
RECURSIVE Do(_, _), DoFrom(_, _, _), Undo(_, _), UndoFrom(_, _, _), TwoWay(_)
DoFrom(q, k, x) == IF k > Len(q) THEN x ELSE DoFrom(q, k + 1, Do(q[k], x))
Do(a, x) == IF IsPipe(a) THEN DoFrom(a.p, 1, x) ELSE Append(x, a.k)
UndoFrom(q, k, x) == IF k = 0 THEN x ELSE UndoFrom(q, k - 1, Undo(q[k], x))
Undo(a, x) == IF IsPipe(a) THEN UndoFrom(a.p, Len(a.p), x)
              ELSE IF a.way = 1 THEN x
              ELSE IF x # <<>> /\ x[Len(x)] = a.k THEN SubSeq(x, 1, Len(x) - 1)
              ELSE Append(x, "!" \o a.k)       \* undone out of turn
TwoWay(a) == IF IsPipe(a) THEN \A k \in 1..Len(a.p) : TwoWay(a.p[k]) ELSE a.way = 2
RECURSIVE Flat(_), FlatFrom(_, _)
FlatFrom(q, k) == IF k > Len(q) THEN <<>> ELSE Flat(q[k]) \o FlatFrom(q, k + 1)
Flat(a) == IF IsPipe(a) THEN FlatFrom(a.p, 1) ELSE <<a>>      \* the parts in order
=============================================================================
