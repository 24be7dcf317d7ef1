------------------------------ MODULE TraceMap ------------------------------
(* Recorded structure mappings (C18) and Trestle fits (C19).                 *)
EXTENDS LTable, TraceLib, Mapping
T == INSTANCE Terms
CONSTANT Prop
VARIABLES tr, l
Evs == Traces[tr].ev
Cfg == Traces[tr].cfg
TInit == tr \in 1..Len(Traces) /\ l = 0 /\ CTInit

\* the name a projected table uses for an attribute
RECURSIVE Repr(_), Reprs(_, _)
Reprs(q, i) == IF i > Len(q) THEN "" ELSE (IF i = 1 THEN "" ELSE ", ") \o Repr(q[i]) \o Reprs(q, i + 1)
Repr(a) == IF T!IsU(a) THEN "(" \o Reprs(a.u, 1) \o (IF Len(a.u) = 1 THEN ",)" ELSE ")") ELSE "'" \o a.s \o "'"

\* e.parts: what each attribute of the instance (or table) contributes
Contribution(e, f) ==
    LET k(i) == Repr(T!RenAttr(T!Canon(e.parts[i].a), f))
        is == 1..Len(e.parts)
        noms == {i \in is : e.parts[i].isnom}
        nums == {i \in is : e.parts[i].isnum}
    IN [count |-> e.weight,
        nom |-> [n \in {k(i) : i \in noms} |-> e.parts[CHOOSE i \in noms : k(i) = n].nom],
        num |-> [n \in {k(i) : i \in nums} |-> LS(e.parts[CHOOSE i \in nums : k(i) = n].num)]]
Worth(e, f) == LECG(LAdd(LTab(e.base), Contribution(e, f)), Cfg, e.scales)
NotMore(a, b) == BLeq(BSub(a, b), Tol9)
CVarsOf(e) == UNION {T!VarsIn(T!Canon(e.battrs[i])) : i \in 1..Len(e.battrs)}

\* the legal mappings that explain y from x
Explaining(x, y, cv) == {f \in T!Injections(T!Vars(x), T!Vars(y)) : T!Rename(x, f) = y}
Top(e, f, w, cv) == \A g \in Neighbours(f, cv) : NotMore(Worth(e, g), w)
\* hill climbing may take a last step to an equally good mapping
Best(e, f, cv) == LET w == Worth(e, f)
                  IN \/ Top(e, f, w, cv)
                     \/ \E g \in Before(f, cv) : LET v == Worth(e, g) IN NotMore(v, w) /\ NotMore(w, v) /\ Top(e, g, v, cv)

Map(e) ==
    LET x == T!Canon(e.in)  y == T!Canon(e.out)  cv == CVarsOf(e)
        Fs == {f \in Explaining(x, y, cv) : Legal(f, cv)}
    IN Clause("objects are renamed one-to-one to variables of the concept or themselves and nothing else changes", Fs # {})
       \cup Clause("undoing restores the instance", T!Canon(e.back) = x)
       \cup Clause("the mapping reported is the mapping applied",
                   LET m == [o \in {T!S(e.mapping[i][1]) : i \in 1..Len(e.mapping)} |->
                               T!S(e.mapping[CHOOSE i \in 1..Len(e.mapping) : T!S(e.mapping[i][1]) = o][2])]
                   IN T!Rename(x, m) = y)
       \cup Clause("no swap or reassignment of the mapping is better", Fs # {} => \E f \in Fs :
                   \* only the objects of a given start are moved
                   LET d == {T!S(e.dom[i]) : i \in 1..Len(e.dom)} IN Best(e, [o \in DOMAIN f \cap d |-> f[o]], cv))
       \cup Clause("the cost of a mapping is what the concept with the instance would fail to guess",
                   Len(e.parts) = 0 \/ LET m == [o \in {T!S(e.cmap[i][1]) : i \in 1..Len(e.cmap)} |->
                               T!S(e.cmap[CHOOSE i \in 1..Len(e.cmap) : T!S(e.cmap[i][1]) = o][2])]
                   IN CloseTo(FromLog(e.cost), BSub(FZero, Worth(e, m)), Tol8))
       \cup Clause("the argument is left alone", e.same)

\* A fit: x is the caller's instance, y what the root gained.
Fit(e) ==
    LET x == T!Extract(T!Flat(T!Canon(e.in)))  y == T!Canon(e.out)  cv == CVarsOf(e)
        Fs == Explaining(x, y, cv)
    IN Clause("the root gains exactly the instance with its objects renamed one-to-one", Fs # {})
       \cup Clause("the root counts one more", e.gained = 1)
       \cup Clause("no other way of matching its objects by one swap or reassignment is better",
                   \* an object given a fresh name counts as mapped to itself
                   Fs # {} /\ cv # {} => \E f \in Fs :
                      LET g == [o \in {IF f[o] \in cv THEN o ELSE f[o] : o \in DOMAIN f} |->
                                  IF o \in DOMAIN f THEN f[o] ELSE o]
                          x2 == [o \in {o \in DOMAIN f : f[o] \notin cv} |-> f[o]]
                          e2 == [e EXCEPT !.parts = [i \in 1..Len(e.parts) |->
                                    [e.parts[i] EXCEPT !.a = T!RenAttr(T!Canon(@), x2)]]]
                      IN Best(e2, g, cv))
       \cup Clause("the argument is left alone", e.same)
Twin(e) ==
    LET g == [o \in {T!S(e.names[i][1]) : i \in 1..Len(e.names)} |->
                T!S(e.names[CHOOSE i \in 1..Len(e.names) : T!S(e.names[i][1]) = o][2])]
    IN Clause("the names given to objects make no difference to the tree", e.sametree)
       \cup Clause("the names given to objects make no difference to categorising", e.samecat)
       \cup Clause("inferred values carry the names given", T!Canon(e.inf2) = T!Rename(T!Canon(e.inf1), g))
\* A fit of the dummy baseline
Dummy(e) ==
    LET c == T!Canon(e.in)  y == T!Canon(e.out)
    IN Clause("the concept gains exactly the instance",
              IF e.map THEN Explaining(T!Extract(T!Flat(c)), y, {}) # {} ELSE y = T!Flat(c))
       \cup Clause("the concept counts one more", e.gained = 1)
       \cup Clause("the tree is one concept and every fit and categorisation returns it", e.one)
       \cup Clause("the argument is left alone", e.same)
Verdict1(e) == CASE e.op = "err" -> {"a valid instance cannot be processed: " \o e.err}
                [] e.op = "map" -> Map(e) [] e.op = "fit" -> Fit(e) [] e.op = "twin" -> Twin(e)
Verdict(e) == IF e.op = "dummy" THEN Dummy(e) ELSE Verdict1(e)
TNext == /\ l < Len(Evs) /\ l' = l + 1 /\ tr' = tr
         /\ Report(tr, l + 1, Verdict(Evs[l + 1]))
         /\ UNCHANGED <<bag, hier>>
         /\ l' = Len(Evs) => Done(tr, l')
TSpec == TInit /\ [][TNext]_<<tr, l, bag, hier>>
=============================================================================
