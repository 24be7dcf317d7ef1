------------------------------- MODULE Terms -------------------------------
(* Instances as terms, and what the preprocessors do to them.                *)
(*   [s |-> "a"] string   [n |-> "2.5"] number   [o |-> "True"] other value  *)
(*   [u |-> <<..>>] tuple [l |-> <<..>>] list    [d |-> {<<key, value>>}]    *)
(*   [x |-> "{1}"] any other unhashable value                                *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt, FiniteSetsExt, Folds
Is(x, k) == DOMAIN x = {k}
S(s) == [s |-> s]
U(q) == [u |-> q]
D(m) == [d |-> m]
IsD(x) == Is(x, "d")
IsU(x) == Is(x, "u")
IsS(x) == Is(x, "s")
TrueT == [o |-> "True"]
Els(q) == {q[i] : i \in 1..Len(q)}
\* a term as the harness writes it (dictionaries as lists of pairs)
RECURSIVE Canon(_)
Canon(x) == IF IsD(x) THEN D({<<Canon(p[1]), Canon(p[2])>> : p \in Els(x.d)})
            ELSE IF IsU(x) THEN U([i \in 1..Len(x.u) |-> Canon(x.u[i])])
            ELSE IF Is(x, "l") THEN [l |-> [i \in 1..Len(x.l) |-> Canon(x.l[i])]]
            ELSE x
Keys(x) == {p[1] : p \in x.d}
At(x, k) == (CHOOSE p \in x.d : p[1] = k)[2]
Initial(x) == IF IsS(x) /\ Len(x.s) > 0 THEN SubSeq(x.s, 1, 1) ELSE ""
IsVar(x) == Initial(x) = "?"
IsHid(x) == Initial(x) = "_"
\* an attribute name that marks what it names as hidden
Marked(a) == IF IsU(a) THEN a.u[1] = S("_") ELSE IsHid(a)
Pair(a, b) == U(<<a, b>>)
IsPair(x) == IsU(x) /\ Len(x.u) = 2

(* -------------------------- variables and renaming ---------------------- *)
RECURSIVE VarsIn(_)
\* variables of an attribute
VarsIn(a) == IF IsU(a) THEN UNION {VarsIn(a.u[i]) : i \in 1..Len(a.u)} ELSE IF IsVar(a) THEN {a} ELSE {}
RECURSIVE Vars(_)
\* variables of an instance: names of attributes and components, at any depth, and arguments of relations
Vars(x) == IF IsD(x) THEN UNION {VarsIn(p[1]) \cup Vars(p[2]) : p \in x.d}
           ELSE IF Is(x, "l") THEN UNION {Vars(x.l[i]) : i \in 1..Len(x.l)} ELSE {}
RECURSIVE RenAttr(_, _)
RenAttr(a, f) == IF a \in DOMAIN f THEN f[a]
                 ELSE IF IsU(a) THEN U([i \in 1..Len(a.u) |-> RenAttr(a.u[i], f)]) ELSE a
RECURSIVE Rename(_, _)
Rename(x, f) == IF IsD(x) THEN D({<<RenAttr(p[1], f), Rename(p[2], f)>> : p \in x.d})
                ELSE IF Is(x, "l") THEN [l |-> [i \in 1..Len(x.l) |-> Rename(x.l[i], f)]] ELSE x
OneToOne(f) == \A a, b \in DOMAIN f : f[a] = f[b] => a = b
Injections(A, B) == {f \in [A -> B] : OneToOne(f)}
\* a one-to-one renaming of the variables of x, to names in B, that turns x into y
Renamings(x, y, B) == {f \in Injections(Vars(x), B) : Rename(x, f) = y}

(* ------------------------------- flattening ----------------------------- *)
RECURSIVE FlatAt(_, _, _)
FlatAt(x, outer, top) ==
    UNION {LET a == IF top THEN p[1]
                    ELSE IF IsHid(p[1]) \/ Marked(outer) THEN Pair(S("_"), Pair(p[1], outer)) ELSE Pair(p[1], outer)
           IN IF IsD(p[2]) THEN FlatAt(p[2], a, FALSE) ELSE {<<a, p[2]>>} : p \in x.d}
Flat(x) == D(FlatAt(x, S(""), TRUE))
RECURSIVE Path(_)
Path(a) == IF ~IsPair(a) THEN <<a>>
           ELSE IF a.u[1] = S("_") THEN Path(a.u[2]) ELSE Append(Path(a.u[2]), a.u[1])
RECURSIVE Build(_)
Build(P) == D({<<k, LET q == {p \in P : p[1][1] = k}
                    IN IF \E p \in q : Len(p[1]) = 1 THEN (CHOOSE p \in q : Len(p[1]) = 1)[2]
                       ELSE Build({<<Tail(p[1]), p[2]>> : p \in q})>> : k \in {p[1][1] : p \in P}})
Unflat(y) == Build({<<Path(p[1]), p[2]>> : p \in y.d})

(* ---------------------------- sub-components ---------------------------- *)
RECURSIVE Cut(_)
\* the attribute with everything outside its innermost variable cut off
Cut(a) == IF ~IsU(a) THEN a
          ELSE IF ~IsPair(a) THEN U([i \in 1..Len(a.u) |-> Cut(a.u[i])])
          ELSE IF IsVar(a.u[1]) THEN a.u[1] ELSE Pair(a.u[1], Cut(a.u[2]))
RECURSIVE Owners(_)
Owners(a) == IF ~IsU(a) THEN {}
             ELSE IF ~IsPair(a) THEN UNION {Owners(a.u[i]) : i \in 1..Len(a.u)}
             ELSE Owners(a.u[2]) \cup IF IsVar(a.u[1]) THEN {U(<<S("has-component"), Cut(a.u[2]), a.u[1]>>)} ELSE {}
Extract(y) == D({<<Cut(p[1]), p[2]>> : p \in y.d} \cup UNION {{<<r, TrueT>> : r \in Owners(p[1])} : p \in y.d})
IsHC(a) == IsU(a) /\ Len(a.u) = 3 /\ a.u[1] = S("has-component")
RECURSIVE Put(_, _)
Put(a, own) == IF a \in DOMAIN own THEN Pair(a, Put(own[a], own))
               ELSE IF IsPair(a) THEN Pair(a.u[1], Put(a.u[2], own))
               ELSE IF IsU(a) THEN U([i \in 1..Len(a.u) |-> Put(a.u[i], own)]) ELSE a
\* an object with several owners cannot be nested: it stays where it is, with its relations
Embed(y) == LET hc == {a \in Keys(y) : IsHC(a)}
                one == {a \in hc : \A b \in hc : b.u[3] = a.u[3] => b = a}
                own == [o \in {a.u[3] : a \in one} |-> (CHOOSE a \in one : a.u[3] = o).u[2]]
            IN D({<<Put(p[1], own), p[2]>> : p \in {p \in y.d : p[1] \notin one}})
RECURSIVE NVals(_)
NVals(x) == FoldSet(LAMBDA p, n : n + IF IsD(p[2]) THEN NVals(p[2]) ELSE 1, 0, x.d)

(* --------------------------------- lists -------------------------------- *)
RECURSIVE RelInst(_)
RelInst(x) == D({<<p[1], IF Is(p[2], "l") THEN D({}) ELSE IF IsD(p[2]) THEN RelInst(p[2]) ELSE p[2]>> : p \in x.d})
RECURSIVE RelSet(_, _, _)
RelSet(x, outer, top) ==
    UNION {LET a == IF top THEN p[1] ELSE Pair(p[1], outer)
           IN IF IsD(p[2]) THEN RelSet(p[2], a, FALSE)
              ELSE IF Is(p[2], "l")
              THEN {<<U(<<S("has-element"), a, e>>), TrueT>> : e \in Els(p[2].l)}
                   \cup {<<U(<<S("ordered-list"), a, p[2].l[i], p[2].l[i + 1]>>), TrueT>> : i \in 1..(Len(p[2].l) - 1)}
              ELSE {} : p \in x.d}
ToRels(x) == D(RelInst(x).d \cup RelSet(x, S(""), TRUE))
IsRel(a, r, n) == IsU(a) /\ Len(a.u) = n /\ a.u[1] = S(r)
HasEl(a) == IsRel(a, "has-element", 3)
InOrd(a) == IsRel(a, "ordered-list", 4)
ListNames(y) == {a.u[2] : a \in {a \in Keys(y) : HasEl(a)}}
ElsOf(y, l) == {a.u[3] : a \in {a \in Keys(y) : HasEl(a) /\ a.u[2] = l}}
OrdOf(y, l) == {<<a.u[3], a.u[4]>> : a \in {a \in Keys(y) : InOrd(a) /\ a.u[2] = l}}
Steps(q) == {<<q[i], q[i + 1]>> : i \in 1..(Len(q) - 1)}
Perms(E) == {q \in [1..Cardinality(E) -> E] : \A i, j \in DOMAIN q : q[i] = q[j] => i = j}
ChainsDef(E, O) == {q \in Perms(E) : Steps(q) = O}
\* the order relation, closed, is a strict total order on E
TotalDef(E, O) == \E q \in Perms(E) :
    /\ O \subseteq {<<q[i], q[j]>> : i \in DOMAIN q, j \in DOMAIN q}
    /\ \A i, j \in DOMAIN q : <<q[i], q[j]>> \in O => i < j
    /\ Steps(q) \subseteq O
\* the same, found without trying every order (MCTerms checks that they agree):
\* what comes first is what nothing comes before
RECURSIVE Sorting(_, _, _)
Sorting(q, R, O) ==
    LET first == {e \in R : \A p \in O : p[2] = e => p[1] \notin R}
    IN IF Cardinality(first) # 1 THEN q
       ELSE LET e == CHOOSE e \in first : TRUE IN Sorting(Append(q, e), R \ {e}, O)
Chains(E, O) == LET q == Sorting(<<>>, E, O) IN IF Len(q) = Cardinality(E) /\ Steps(q) = O THEN {q} ELSE {}
Total(E, O) == LET q == Sorting(<<>>, E, O)
               IN /\ Len(q) = Cardinality(E)
                  /\ \A p \in O : p[1] \in E /\ p[2] \in E
                  /\ Steps(q) \subseteq O
RECURSIVE Set1(_, _, _)
Set1(x, path, v) ==
    LET k == path[1]
        old == IF k \in Keys(x) THEN At(x, k) ELSE D({})
    IN D({p \in x.d : p[1] # k} \cup {<<k, IF Len(path) = 1 THEN v ELSE Set1(old, Tail(path), v)>>})
\* the lists whose relations say in which order their elements come are put back
Decided(y) == \A l \in ListNames(y) : Chains(ElsOf(y, l), OrdOf(y, l)) # {} \/ ~Total(ElsOf(y, l), OrdOf(y, l))
FromRels(y) ==
    LET good == {l \in ListNames(y) : Chains(ElsOf(y, l), OrdOf(y, l)) # {}}
        rest == D({p \in y.d : ~((HasEl(p[1]) \/ InOrd(p[1])) /\ p[1].u[2] \in good)})
    IN FoldSet(LAMBDA l, x : Set1(x, Path(l), [l |-> CHOOSE q \in Chains(ElsOf(y, l), OrdOf(y, l)) : TRUE]), rest, good)
RECURSIVE Inline(_)
\* an instance whose lists hold the names of components, with the components put in
Inline(x) ==
    LET ls == {p \in x.d : Is(p[2], "l")}
        names == UNION {Els(p[2].l) : p \in ls}
        el(n) == LET o == Inline(At(x, n)) IN IF Keys(o) = {S("val")} THEN At(o, S("val")) ELSE o
    IN D({<<p[1], IF Is(p[2], "l") THEN [l |-> [i \in 1..Len(p[2].l) |-> el(p[2].l[i])]]
                  ELSE IF IsD(p[2]) THEN Inline(p[2]) ELSE p[2]>> : p \in {p \in x.d : p[1] \notin names}})
RECURSIVE NamedLists(_, _)
\* every list holds distinct names of components beside it, none of them in old, each in one list
NamedLists(x, old) ==
    LET ls == {p \in x.d : Is(p[2], "l")}
    IN /\ \A p \in ls : \A i, j \in 1..Len(p[2].l) :
             /\ p[2].l[i] \in Keys(x) /\ p[2].l[i] \notin old
             /\ IsD(At(x, p[2].l[i])) /\ IsVar(p[2].l[i])
             /\ p[2].l[i] = p[2].l[j] => i = j
       /\ \A p, q \in ls : p # q => Els(p[2].l) \cap Els(q[2].l) = {}
       /\ \A p \in x.d : IsD(p[2]) => NamedLists(p[2], old)

(* ----------------------- relation strings and tuples -------------------- *)
RECURSIVE Spell(_), Join(_, _)
Join(q, i) == IF i > Len(q) THEN "" ELSE (IF i = 1 THEN "" ELSE " ") \o Spell(q[i]) \o Join(q, i + 1)
Spell(t) == IF IsU(t) THEN "(" \o Join(t.u, 1) \o ")" ELSE IF IsS(t) THEN t.s ELSE t.n
\* The parser: a stack of open relations, fed one character at a time.
Word(w, num) == IF w \in DOMAIN num THEN [n |-> num[w]] ELSE S(w)
Push(stk, x) == [stk EXCEPT ![Len(stk)] = Append(@, x)]
Flush(st, num) == IF st.w = "" THEN st ELSE [stk |-> Push(st.stk, Word(st.w, num)), w |-> ""]
Feed(st, c, num) ==
    CASE c = " " -> Flush(st, num)
      [] c = "(" -> [stk |-> Append(Flush(st, num).stk, <<>>), w |-> ""]
      [] c = ")" -> LET k == Flush(st, num).stk
                    IN [stk |-> Push(SubSeq(k, 1, Len(k) - 1), U(k[Len(k)])), w |-> ""]
      [] OTHER -> [st EXCEPT !.w = @ \o c]
RECURSIVE Run(_, _, _, _)
Run(s, i, st, num) == IF i > Len(s) THEN st ELSE Run(s, i + 1, Feed(st, SubSeq(s, i, i), num), num)
Parse(s, num) == Run(s, 1, [stk |-> <<<<>>>>, w |-> ""], num).stk[1][1]
Tupled(x, num) == D({<<IF Initial(p[1]) = "(" THEN Parse(p[1].s, num) ELSE p[1], p[2]>> : p \in x.d})
Untupled(y) == D({<<IF IsU(p[1]) THEN S(Spell(p[1])) ELSE p[1], p[2]>> : p \in y.d})

(* ---------------------------- value conversions ------------------------- *)
Aim(k, targets, all) == all \/ k \in targets
RECURSIVE ToSymbols(_, _, _)
ToSymbols(x, T, all) ==
    D({<<p[1], IF Is(p[2], "n") /\ Aim(p[1], T, all) THEN S(p[2].n)
               ELSE IF IsD(p[2]) THEN ToSymbols(p[2], T, all) ELSE p[2]>> : p \in x.d})
\* num: atomic value -> the number it spells, for those that do
RECURSIVE ToNumbers(_, _, _, _, _)
ToNumbers(x, T, all, policy, num) ==
    D({<<p[1], IF IsD(p[2]) THEN ToNumbers(p[2], T, all, policy, num)
               ELSE IF ~Aim(p[1], T, all) THEN p[2]
               ELSE IF p[2] \in DOMAIN num THEN [n |-> num[p[2]]] ELSE [n |-> "0.0"]>> :
         p \in {p \in x.d : ~(policy = "drop" /\ ~IsD(p[2]) /\ Aim(p[1], T, all) /\ p[2] \notin DOMAIN num)}})
RECURSIVE Unspelt(_, _, _, _)
Unspelt(x, T, all, num) == \E p \in x.d : IF IsD(p[2]) THEN Unspelt(p[2], T, all, num)
                                          ELSE Aim(p[1], T, all) /\ p[2] \notin DOMAIN num
VarName(k) == IF IsVar(k) THEN k ELSE S("?" \o k.s)
RECURSIVE Variablized(_, _, _)
Variablized(x, T, all) ==
    LET objs == {p[1] : p \in {p \in x.d : IsD(p[2]) /\ Aim(p[1], T, all)}}
        f == [k \in objs |-> VarName(k)]
    IN D({<<IF p[1] \in objs THEN f[p[1]] ELSE IF IsU(p[1]) THEN RenAttr(p[1], f) ELSE p[1],
            IF p[1] \in objs THEN Variablized(p[2], T, all) ELSE p[2]>> : p \in x.d})

(* -------------------------------- sanitising ---------------------------- *)
RECURSIVE Hashable(_)
Hashable(v) == IF IsU(v) THEN \A i \in 1..Len(v.u) : Hashable(v.u[i]) ELSE ~Is(v, "l") /\ ~IsD(v) /\ ~Is(v, "x")
RECURSIVE GoodRel(_)
GoodRel(a) == IF IsU(a) THEN \A i \in 1..Len(a.u) : GoodRel(a.u[i]) ELSE IsS(a)
GoodKey(k, spec) == IsS(k) \/ (IsU(k) /\ (spec = "trestle" => GoodRel(k)))
RECURSIVE Good(_, _)
GoodVal(v, spec) == Hashable(v) \/ (spec = "trestle" /\ IsD(v) /\ Good(v, spec))
Good(x, spec) == \A p \in x.d : GoodKey(p[1], spec) /\ GoodVal(p[2], spec)
RECURSIVE Kept(_, _, _)
\* y keeps everything of x that is acceptable
Kept(x, y, spec) ==
    /\ Cardinality(y.d) = Cardinality(x.d)
    /\ \A p \in x.d :
         /\ GoodKey(p[1], spec) => p[1] \in Keys(y)
         /\ GoodVal(p[2], spec) => \E q \in y.d : q[2] = p[2] /\ (GoodKey(p[1], spec) => q[1] = p[1])
         /\ (spec = "trestle" /\ IsD(p[2])) =>
               \E q \in y.d : IsD(q[2]) /\ Kept(p[2], q[2], spec) /\ (GoodKey(p[1], spec) => q[1] = p[1])
=============================================================================
