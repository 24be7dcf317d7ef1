------------------------------ MODULE MCTerms ------------------------------
(* Every small instance of a family, built up part by part; the algebraic    *)
(* laws of Terms hold of each and each is printed for replay.                *)
EXTENDS Terms, Json
CONSTANTS Family, Size
VARIABLES x, stage
Big == Size = 2
N(s) == [n |-> s]
Ls(q) == [l |-> q]
SeqsUpTo(A, n) == UNION {[1..k -> A] : k \in 1..n}
Opt(k, V) == {{}} \cup {{<<S(k), v>>} : v \in V}
Cross(A, B) == {a \cup b : a \in A, b \in B}
Val == {S("v"), N("1.5")}

(* structured instances *)
C0 == {D(m) : m \in Cross(Opt("a", IF Size > 0 THEN Val ELSE {S("v")}), Opt("_h", {S("v")})) \ {{}}}
C1(names) == C0 \cup {D(a \cup {<<S(k), c>>}) : a \in Opt("b", {S("w")}), k \in names, c \in C0}
C2(names, sub) == C1(names) \cup {D({<<S(k), c>>}) : k \in names, c \in C1(sub)}
Comp == IF Big THEN C2({"?in", "q"}, {"?deep", "z"}) ELSE C1({"?in", "q"})
\* objects, as relations name them: by name at the top, by path further down
RECURSIVE Refs(_, _, _)
Refs(y, outer, top) == UNION {LET a == IF top THEN p[1] ELSE Pair(p[1], outer)
                              IN IF IsD(p[2]) THEN {a} \cup Refs(p[2], a, FALSE) ELSE {} : p \in y.d}
RelsOf(y) == LET r == Refs(y, S(""), TRUE) IN {U(<<S("on"), q[1], q[2]>>) : q \in {q \in r \X r : Size > 0 \/ q[1] # q[2]}}
StructStage(s, y) ==
    CASE s = 0 -> Opt("?x", Comp)
      [] s = 1 -> Opt("p", C1({"?on", "r"}))
      [] s = 2 -> Cross(Opt("a", IF Size > 0 THEN Val ELSE {N("1.5")}), Opt("?y", IF Size > 0 THEN {S("v")} ELSE {}))
      [] s = 3 -> {{<<r, TrueT>> : r \in R} : R \in {{}} \cup {{r} : r \in RelsOf(y)}}
(* instances with lists *)
Elem == {S("a"), S("b"), N("1"), D({<<S("j"), S("k")>>})}
Deep == {D({<<S("m"), Ls(q)>>}) : q \in SeqsUpTo({S("a"), S("c")}, 2)}
ListStage(s, y) ==
    CASE s = 0 -> Opt("l1", {Ls(q) : q \in SeqsUpTo(Elem, 3)})
      [] s = 1 -> Opt("c", {D({<<S("l2"), Ls(q)>>}) : q \in SeqsUpTo(Elem \cup Deep, IF Big THEN 2 ELSE 1)})
      [] s = 2 -> Opt("a", {S("v")})
(* lists of distinct words, for the relations alone *)
WordLists == {Ls(q) : q \in {q \in SeqsUpTo({S("a"), S("b"), S("c"), S("d")}, 4) : Cardinality(Els(q)) = Len(q)}}
WordStage(s, y) ==
    CASE s = 0 -> Opt("l1", WordLists)
      [] s = 1 -> Opt("c", {D({<<S("l2"), w>>}) : w \in {w \in WordLists : Len(w.l) <= 3}})
(* any membership and order relations over three elements *)
Three == {S("a"), S("b"), S("c")}
OrdStage(s, y) ==
    CASE s = 0 -> {{<<S("l1"), D({})>>} \cup {<<U(<<S("has-element"), S("l1"), e>>), TrueT>> : e \in E} : E \in (SUBSET Three) \ {{}}}
      [] s = 1 -> {{<<U(<<S("ordered-list"), S("l1"), p[1], p[2]>>), TrueT>> : p \in O} :
                      O \in SUBSET {<<a, b>> : a \in ElsOf(y, S("l1")), b \in ElsOf(y, S("l1"))}}
(* relations as nested tuples *)
Atom == {S("r"), S("?x"), N("2.5")}
R1 == {U(q) : q \in SeqsUpTo(Atom, 3)}
R2 == {U(q) : q \in SeqsUpTo(Atom \cup IF Big THEN R1 ELSE {U(q) : q \in SeqsUpTo(Atom, 2)}, 2)}
R3 == {U(<<S("f"), t, N("-1.25")>>) : t \in R1} \cup {U(<<S("f"), U(<<S("g"), t>>), S("o1")>>) : t \in R1}
TupStage(s, y) == CASE s = 0 -> {{<<t, TrueT>>} : t \in R1 \cup R2 \cup R3}
                    [] s = 1 -> Opt("plain", {S("(not a key)")})
(* values to convert *)
CV == {S("v"), S("12"), S("-3.50"), N("3"), N("2.5")}
ConvStage(s, y) == CASE s = 0 -> Opt("a", CV) [] s = 1 -> Opt("b", CV)
                     [] s = 2 -> Opt("c", {D(m) : m \in Cross(Opt("a", CV), Opt("c", {S("7"), N("4"), D({<<S("b"), N("1")>>})})) \ {{}}})
                     [] s = 3 -> {{}} \cup {{<<U(<<S("on"), S("c"), S("a")>>), S("5")>>}}
(* arbitrary mappings to sanitise *)
SVal == {S("v"), N("1"), Ls(<<N("1")>>), D({<<N("3"), Ls(<<S("q")>>)>>, <<S("k"), N("2")>>}), U(<<S("t"), N("1")>>), [x |-> "{1}"],
         U(<<N("1"), Ls(<<N("2")>>)>>)}
SOpt(k) == {{}} \cup {{<<k, v>>} : v \in SVal}
SanStage(s, y) == CASE s = 0 -> SOpt(S("a")) [] s = 1 -> SOpt(N("1"))
                    [] s = 2 -> SOpt(U(<<S("r"), N("2"), S("b")>>)) [] s = 3 -> SOpt(U(<<S("r"), S("a"), U(<<S("s"), S("b")>>)>>))

Stage(s, y) == CASE Family = "struct" -> StructStage(s, y) [] Family = "list" -> ListStage(s, y)
                 [] Family = "word" -> WordStage(s, y) [] Family = "order" -> OrdStage(s, y)
                 [] Family = "tuple" -> TupStage(s, y) [] Family = "conv" -> ConvStage(s, y) [] Family = "san" -> SanStage(s, y)
Final == CASE Family \in {"struct", "conv", "san"} -> 3 [] Family = "list" -> 2 [] OTHER -> 1
RECURSIVE Out(_)
Out(t) == IF IsD(t) THEN [d |-> SetToSeq({<<Out(p[1]), Out(p[2])>> : p \in t.d})]
          ELSE IF IsU(t) THEN U([i \in 1..Len(t.u) |-> Out(t.u[i])])
          ELSE IF Is(t, "l") THEN [l |-> [i \in 1..Len(t.l) |-> Out(t.l[i])]] ELSE t
Emit(t, s) == s = Final + 1 /\ t.d # {} /\ ~(Family = "struct" /\ Big) => PrintT("GEN|" \o ToJson(Out(t)))
MCInit == x = D({}) /\ stage = 0
MCNext == /\ stage <= Final
          /\ \E m \in Stage(stage, x) : x' = D(x.d \cup m)
          /\ stage' = stage + 1
          /\ Emit(x', stage')
MCSpec == MCInit /\ [][MCNext]_<<x, stage>>

Fresh(y) == LET q == SetToSeq(Vars(y)) IN [v \in Vars(y) |-> S("?n" \o ToString(CHOOSE i \in 1..Len(q) : q[i] = v))]
FlatLaw == Family = "struct" => Unflat(Flat(x)) = x /\ NVals(Flat(x)) = NVals(x)
SubLaw == Family = "struct" => Embed(Extract(Flat(x))) = Flat(x)
\* nothing that is not a component is nested any more, and hidden stays hidden
FlatKeys == Family = "struct" => \A p \in Flat(x).d : ~IsD(p[2])
RenLaw == Family = "struct" =>
            LET f == Fresh(x)  y == Rename(x, f)
            IN f \in Renamings(x, y, Vars(y)) /\ Rename(y, [v \in Vars(y) |-> CHOOSE u \in Vars(x) : f[u] = v]) = x
RelLaw == Family = "word" => FromRels(ToRels(x)) = x
\* one total order at most
ChainLaw == Family = "order" => \A n \in ListNames(x) :
               LET E == ElsOf(x, n)  O == OrdOf(x, n)
               IN Chains(E, O) = ChainsDef(E, O) /\ Total(E, O) = TotalDef(E, O)
OrdLaw == Family = "order" => \A n \in ListNames(x) : Cardinality(Chains(ElsOf(x, n), OrdOf(x, n))) <= 1
ParseLaw == Family = "tuple" =>
              \A p \in x.d : IsU(p[1]) => Parse(Spell(p[1]), [w \in {"2.5", "-1.25"} |-> w]) = p[1]
ConvLaw == Family = "conv" =>
             /\ ToSymbols(ToSymbols(x, {}, TRUE), {}, TRUE) = ToSymbols(x, {}, TRUE)
             /\ ToSymbols(x, {}, FALSE) = x /\ Variablized(x, {}, FALSE) = x
             /\ Variablized(Variablized(x, {}, TRUE), {}, TRUE) = Variablized(x, {}, TRUE)
SanLaw == Family = "san" => \A sp \in {"cobweb", "trestle"} : Kept(x, x, sp)
=============================================================================
