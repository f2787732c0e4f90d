------------------------------ MODULE ImpSpec ------------------------------
(* Imports.  A file system: nodes[n] = [up |-> parent, kind, name, to]; kinds "dir", "src" (a source file), "lib" (a
   library), "txt" (any other file), "link" (to node to).  Node 1 is the root of the tree.
   files[n] (n a source node) is its sequence of items:
     [k |-> "mark", id]                     leaves a mark
     [k |-> "use", id, f]                   calls the function that source f defines at its start
     [k |-> "imp", id, alts]                alternatives tried in order; alts[i] = [abs, path] with path a sequence of names
   base: the configured directories, later ones searched first. *)
EXTENDS Integers, Sequences, FiniteSets, TLC

RECURSIVE Deref(_, _)
Deref(p, n) == IF n # 0 /\ p.nodes[n].kind = "link" THEN Deref(p, p.nodes[n].to) ELSE n
Child(p, d, c) == LET S == {n \in DOMAIN p.nodes : n # 1 /\ p.nodes[n].up = d /\ p.nodes[n].name = c} IN
   IF S = {} THEN 0 ELSE CHOOSE n \in S : TRUE
IsDir(p, n) == n # 0 /\ p.nodes[n].kind = "dir"
Go(p, d, c) == IF c = "." THEN d ELSE IF c = ".." THEN (IF d = 1 THEN 0 ELSE p.nodes[d].up) ELSE Deref(p, Child(p, d, c))
RECURSIVE Walk(_, _, _)
Walk(p, d, path) == IF ~IsDir(p, d) THEN 0 ELSE IF path = <<>> THEN d ELSE Walk(p, Go(p, d, Head(path)), Tail(path))

\* the names tried for n, in order (E1..E5 stand for the known source extensions)
Tried(n) == <<n, n \o ".E1", n \o ".E2", n \o ".E3", n \o ".E4", n \o ".E5", "lib" \o n \o ".dbg.so", "lib" \o n \o ".so">>
FrontOf(s) == SubSeq(s, 1, Len(s) - 1)
FirstOf(s) == LET I == {i \in DOMAIN s : s[i] # 0} IN IF I = {} THEN 0 ELSE s[CHOOSE i \in I : \A j \in I : i <= j]
FindIn(p, d, path) == LET dir == Walk(p, d, FrontOf(path)) name == path[Len(path)] IN
   IF dir = 0 THEN 0
   ELSE FirstOf([i \in 1..8 |-> LET n == Deref(p, Child(p, dir, Tried(name)[i])) IN IF IsDir(p, n) THEN 0 ELSE n])
\* dirs: innermost last
Find(p, dirs, a) == IF a.abs THEN FindIn(p, 1, a.path)
   ELSE FirstOf([i \in DOMAIN dirs |-> FindIn(p, dirs[Len(dirs) + 1 - i], a.path)])
Kind(p, n) == IF n = 0 THEN "none" ELSE p.nodes[n].kind
Dir(p, n) == p.nodes[n].up

-----------------------------------------------------------------------------
\* The machine: a stack of files being read.  alt: the alternative of the current import being tried.
Start(p) == [stack |-> <<[f |-> p.main, i |-> 1]>>, alt |-> 1, seen |-> {p.main}, libs |-> {}, ev |-> <<>>]
Dirs(p, st) == p.base \o [i \in DOMAIN st.stack |-> Dir(p, st.stack[i].f)]
Top(st) == st.stack[Len(st.stack)]
Done(st) == st.stack = <<>>
Step(p, st) ==
  LET t == Top(st) items == p.files[t.f]
      next == [st EXCEPT !.stack[Len(st.stack)].i = @ + 1, !.alt = 1]
      say(e) == [next EXCEPT !.ev = Append(@, e)] IN
  IF t.i > Len(items) THEN [st EXCEPT !.stack = FrontOf(@)]
  ELSE LET x == items[t.i] IN
    CASE x.k = "mark" -> say(<<"mark", x.id>>)
      [] x.k = "use" -> say(IF x.f \in st.seen THEN <<"used", x.id>> ELSE <<"err", x.id>>)
      [] x.k = "imp" ->
         IF st.alt > Len(x.alts) THEN say(<<"err", x.id>>)
         ELSE LET n == Find(p, Dirs(p, st), x.alts[st.alt]) IN
           CASE Kind(p, n) = "src" -> IF n \in st.seen THEN next
                  ELSE [next EXCEPT !.stack = Append(@, [f |-> n, i |-> 1]), !.seen = @ \cup {n}]
             [] Kind(p, n) = "lib" -> IF n \in st.libs THEN next ELSE [say(<<"lib", n>>) EXCEPT !.libs = @ \cup {n}]
             [] OTHER -> [st EXCEPT !.alt = @ + 1]

-----------------------------------------------------------------------------
\* The meaning without a machine: the order in which files are entered is that of a depth-first walk.
RECURSIVE Pick(_, _, _, _)
Pick(p, dirs, alts, i) == IF i > Len(alts) THEN 0
   ELSE LET n == Find(p, dirs, alts[i]) IN IF Kind(p, n) \in {"src", "lib"} THEN n ELSE Pick(p, dirs, alts, i + 1)
\* r = [seen, ev]; seen holds files and libraries
RECURSIVE Read(_, _, _, _, _)
Read(p, f, i, dirs, r) ==
   IF i > Len(p.files[f]) THEN r
   ELSE LET x == p.files[f][i]
            more(q) == Read(p, f, i + 1, dirs, q)
            n == IF x.k = "imp" THEN Pick(p, dirs, x.alts, 1) ELSE 0 IN
      IF x.k = "mark" THEN more([r EXCEPT !.ev = Append(@, <<"mark", x.id>>)])
      ELSE IF x.k = "use" THEN more([r EXCEPT !.ev = Append(@, <<IF x.f \in r.seen THEN "used" ELSE "err", x.id>>)])
      ELSE IF n = 0 THEN more([r EXCEPT !.ev = Append(@, <<"err", x.id>>)])
      ELSE IF n \in r.seen THEN more(r)
      ELSE IF Kind(p, n) = "lib" THEN more([seen |-> r.seen \cup {n}, ev |-> Append(r.ev, <<"lib", n>>)])
      ELSE more(Read(p, n, 1, Append(dirs, Dir(p, n)), [r EXCEPT !.seen = @ \cup {n}]))
Meaning(p) == Read(p, p.main, 1, Append(p.base, Dir(p, p.main)), [seen |-> {p.main}, ev |-> <<>>]).ev

\* invariants
Once(st) == \A i, j \in DOMAIN st.ev : i # j => st.ev[i] # st.ev[j]
NoReentry(st) == \A i, j \in DOMAIN st.stack : i # j => st.stack[i].f # st.stack[j].f
OpenAreSeen(st) == \A i \in DOMAIN st.stack : st.stack[i].f \in st.seen
Whole(p, st) == Done(st) => \A f \in st.seen : \A i \in DOMAIN p.files[f] :
   p.files[f][i].k = "mark" => \E j \in DOMAIN st.ev : st.ev[j] = <<"mark", p.files[f][i].id>>
Means(p, st) == Done(st) => st.ev = Meaning(p)
=============================================================================
