------------------------------ MODULE ErrSpec ------------------------------
(* Errors and execution.  A program is a sequence of root items: definitions of units (functions, classes, globals) and
   statements.  A unit or statement has offences of its own and needs other units.  A statement is compiled when it is
   reached: it and what it needs, each unit once, in any order; every offence found is reported once; the statement runs
   iff nothing wrong has been found so far.  A need for a unit that is not yet defined is an offence of the place that
   has it (once met, it stays).
   Globals and all that their initialisers need are compiled apart, in the session that runs initialisers: a unit needed on
   both sides is compiled on both, and its offences reported by both.  A class with offences in its fields is not laid
   out: the types of its other fields are still compiled, their handlers are not.  A statement that uses such a class
   again may repeat what is wrong with its fields (Again).
   items[i] = [k |-> "def", u |-> unit] or [k |-> "run", bad, needs]
   units[u] = [bad |-> set of offence ids, needs |-> seq of [u |-> unit, id |-> the offence it is if u is missing]] *)
EXTENDS Integers, Sequences, FiniteSets, TLC
Ran(s) == {s[i] : i \in DOMAIN s}
DefinedBefore(p, i) == {p.items[j].u : j \in {k \in 1..(i - 1) : p.items[k].k = "def"}}
Missing(p, x, i) == {n.id : n \in {m \in Ran(x.needs) : m.u \notin DefinedBefore(p, i)}}
OwnBad(p, x, i) == Ran(x.bad) \cup Missing(p, x, i)
Kind(p, u) == p.units[u].kind
\* can the class be laid out?  (fields need only classes defined earlier, see the generators)
RECURSIVE FieldsOk(_, _, _)
FieldsOk(p, u, i) == Kind(p, u) # "fld" \/ LET x == p.units[u] IN OwnBad(p, x, i) = {} /\ \A n \in Ran(x.needs) : FieldsOk(p, n.u, i)
\* a unit of work: <<session, unit>>
At(p, s, u, i) == IF Kind(p, u) = "glob" THEN <<"init", u>> ELSE <<s, u>>
Deps(p, s, x, i) == {At(p, s, n.u, i) : n \in {m \in Ran(x.needs) : m.u \in DefinedBefore(p, i)}}
\* the fields of a class that cannot be laid out lead only to further field lists
UDeps(p, w, i) == LET x == p.units[w[2]] d == Deps(p, w[1], x, i) IN
   IF x.kind = "fld" /\ ~FieldsOk(p, w[2], i) THEN {y \in d : Kind(p, y[2]) = "fld"} ELSE d
Bad(p, s, x, i) == {<<s, b>> : b \in OwnBad(p, x, i)}

Start == [i |-> 1, todo |-> {}, seen |-> {}, rep |-> {}, ran |-> <<>>, at |-> "item", done |-> FALSE]
Succ(p, st) ==
  IF st.at = "work" THEN
    IF st.todo # {}
    THEN {LET d == UDeps(p, w, st.i) \ (st.seen \cup {w}) IN
          [st EXCEPT !.todo = (@ \ {w}) \cup d, !.seen = @ \cup {w}, !.rep = @ \cup Bad(p, w[1], p.units[w[2]], st.i)] : w \in st.todo}
    ELSE {[st EXCEPT !.at = "item", !.i = @ + 1, !.ran = IF st.rep = {} THEN Append(@, st.i) ELSE @]}
  ELSE IF st.i > Len(p.items) THEN {[st EXCEPT !.done = TRUE]}
  ELSE LET x == p.items[st.i] IN
    IF x.k = "def" THEN {[st EXCEPT !.i = @ + 1]}
    ELSE {[st EXCEPT !.at = "work", !.todo = Deps(p, "main", x, st.i) \ st.seen, !.rep = @ \cup Bad(p, "main", x, st.i)]}

\* without steps: what statement i reaches, given what the statements before it have already compiled
RECURSIVE Reach(_, _, _, _)
Reach(p, S, seen, i) == LET n == (S \cup UNION {UDeps(p, w, i) : w \in S}) \ seen IN IF n = S THEN S ELSE Reach(p, n, seen, i)
RECURSIVE SeenBefore(_, _)
SeenBefore(p, i) == IF i = 1 THEN {} ELSE LET s == SeenBefore(p, i - 1) x == p.items[i - 1] IN
   IF x.k = "def" THEN s ELSE s \cup Reach(p, Deps(p, "main", x, i - 1) \ s, s, i - 1)
Found(p, i) == LET x == p.items[i] s == SeenBefore(p, i) IN
   IF x.k = "def" THEN {} ELSE Bad(p, "main", x, i) \cup UNION {Bad(p, w[1], p.units[w[2]], i) : w \in Reach(p, Deps(p, "main", x, i) \ s, s, i)}
AllFound(p) == UNION {Found(p, i) : i \in DOMAIN p.items}

OnlyCleanRuns(p, st) == \A j \in DOMAIN st.ran : \A i \in 1..st.ran[j] : Found(p, i) = {}
Complete(p, st) == st.done => /\ st.rep = AllFound(p)
   /\ \A i \in DOMAIN p.items : (p.items[i].k = "run" /\ (\A j \in 1..i : Found(p, j) = {})) => i \in Ran(st.ran)
InOrder(st) == \A j \in 1..(Len(st.ran) - 1) : st.ran[j] < st.ran[j + 1]
\* field offences of the classes compiled by the end
Again(p, st) == UNION {OwnBad(p, p.units[w[2]], Len(p.items)) \cup Ran(p.units[w[2]].bad) : w \in {y \in st.seen : Kind(p, y[2]) = "fld"}}
Answer(p, st) == [ran |-> st.ran, rep |-> st.rep, again |-> Again(p, st)]
=============================================================================
