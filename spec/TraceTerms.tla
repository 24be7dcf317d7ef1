----------------------------- MODULE TraceTerms -----------------------------
(* Recorded preprocessor calls against Terms (C16, C17, C20-C23).            *)
EXTENDS Terms, TraceLib
VARIABLES tr, l
Evs == Traces[tr].ev
TInit == tr \in 1..Len(Traces) /\ l = 0
Num(q) == [w \in {q[i].w : i \in 1..Len(q)} |-> (CHOOSE p \in Els(q) : p.w = w).f]
NumV(q) == [w \in {Canon(q[i].v) : i \in 1..Len(q)} |-> (CHOOSE p \in Els(q) : Canon(p.v) = w).f]
Back(e, x) == Clause("undoing restores the instance", e.undone => Canon(e.back) = x)
Same(name, a, b) == Clause(name, a = b)
OneWay(e) == Clause("undoing a one-way conversion gives its argument back", e.undone => Canon(e.back) = Canon(e.out))
TargetSet(e) == {Canon(e.targets[i]) : i \in 1..Len(e.targets)}

Std(e) == LET x == Canon(e.in)  y == Canon(e.out)
              old == {S(e.seen[i]) : i \in 1..Len(e.seen)} \cup Vars(x)
          IN Clause("variables are renamed one-to-one and nothing else changes", Renamings(x, y, Vars(y)) # {})
             \cup Clause("the new names are fresh", Vars(y) \cap old = {})
             \cup Back(e, x)
Flt(e) == LET x == Canon(e.in)  y == Canon(e.out)
          IN Same("flattening keeps every value under its path", y, Flat(x)) \cup Back(e, x)
Sub(e) == LET x == Canon(e.in)  y == Canon(e.out)
          IN Same("extraction keeps every value and records where sub-components belong", y, Extract(x)) \cup Back(e, x)
Both(e) == LET x == Canon(e.in)  y == Canon(e.out)
           IN Same("flattening and extraction keep every value", y, Extract(Flat(x))) \cup Back(e, x)
Unf(e) == LET x == Canon(e.in)  y == Canon(e.out)
          IN Same("undoing nests every value at its path", y, Unflat(x))
Emb(e) == LET x == Canon(e.in)  y == Canon(e.out)
          IN Same("undoing puts sub-components back where they belong", y, Embed(x))
Ext(e) == LET x == Canon(e.in)  y == Canon(e.out)
          IN Clause("list elements become components named in the list", NamedLists(y, Vars(x)))
             \cup Clause("the list elements are kept", NamedLists(y, Vars(x)) => Inline(y) = x)
             \cup Back(e, x)
Rel(e) == LET x == Canon(e.in)  y == Canon(e.out)
          IN Same("a list becomes membership and order relations", y, ToRels(x)) \cup Back(e, x)
ToR(e) == LET x == Canon(e.in)  y == Canon(e.out)
          IN Clause("relations that say one total order, and only those, become lists",
                    Decided(x) => y = FromRels(x))
Lp(e)  == LET x == Canon(e.in)  y == Canon(e.out)  z == FromRels(y)
          IN Clause("no list is left", ToRels(y) = y)
             \cup Clause("lists become components, membership and order relations",
                         NamedLists(z, Vars(x)) /\ Inline(z) = x)
             \cup Back(e, x)
Tup(e) == LET x == Canon(e.in)  y == Canon(e.out)  num == Num(e.nums)
          IN Same("relation strings become the tuples they spell", y, Tupled(x, num)) \cup Back(e, x)
Unt(e) == LET x == Canon(e.in)  y == Canon(e.out)
          IN Same("relation tuples become the strings that spell them", y, Untupled(x))
N2s(e) == Same("exactly the targeted numbers become symbols", Canon(e.out), ToSymbols(Canon(e.in), TargetSet(e), e.all)) \cup OneWay(e)
S2n(e) == LET x == Canon(e.in)  num == NumV(e.nums)
              must == e.policy = "break" /\ Unspelt(x, TargetSet(e), e.all, num)
          IN Clause("an unreadable number is refused exactly when asked", e.refused = must)
             \cup IF e.refused THEN {} ELSE
                  Same("exactly the targeted symbols become numbers", Canon(e.out),
                       ToNumbers(x, TargetSet(e), e.all, e.policy, num)) \cup OneWay(e)
Obj(e) == Same("exactly the targeted components become variables", Canon(e.out), Variablized(Canon(e.in), TargetSet(e), e.all)) \cup OneWay(e)
San(e) == LET x == Canon(e.in)  y == Canon(e.out)
          IN Clause("a sanitised instance is acceptable", Good(y, e.spec))
             \cup Clause("what was acceptable is kept", Kept(x, y, e.spec))
             \cup Clause("an acceptable instance is left alone", Good(x, e.spec) => y = x)
             \cup Same("sanitising twice changes nothing more", Canon(e.again), y)
             \cup Clause("the algorithm fits a sanitised instance: " \o e.fiterr, e.fiterr = "")
Kno(e) == Same(e.clause, Canon(e.back), Canon(e.in))
Verdict(e) ==
    CASE e.op = "err" -> {"a valid instance cannot be processed: " \o e.err}
      [] e.op = "std" -> Std(e) [] e.op = "flat" -> Flt(e) [] e.op = "sub" -> Sub(e) [] e.op = "both" -> Both(e)
      [] e.op = "unflat" -> Unf(e) [] e.op = "embed" -> Emb(e)
      [] e.op = "extract" -> Ext(e) [] e.op = "rel" -> Rel(e) [] e.op = "unrel" -> ToR(e)
      [] e.op = "rerel" -> Clause("the order relations of a list, in any order, give the list back", Canon(e.out) = Canon(e.word))
      [] e.op = "lists" -> Lp(e)
      [] e.op = "tuple" -> Tup(e) [] e.op = "untuple" -> Unt(e)
      [] e.op = "n2s" -> N2s(e) [] e.op = "s2n" -> S2n(e) [] e.op = "obj" -> Obj(e)
      [] e.op = "san" -> San(e) [] e.op = "known" -> Kno(e)
TNext == /\ l < Len(Evs) /\ l' = l + 1 /\ tr' = tr
         /\ Report(tr, l + 1, Verdict(Evs[l + 1])
                     \cup Clause("the argument is left alone", Evs[l + 1].op # "err" => Evs[l + 1].same))
         /\ l' = Len(Evs) => Done(tr, l')
TSpec == TInit /\ [][TNext]_<<tr, l>>
=============================================================================
