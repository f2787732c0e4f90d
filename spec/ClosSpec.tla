------------------------------ MODULE ClosSpec ------------------------------
(* Closures.  A closure is a body and a record of what it captured; the record is shared by the copies of the closure
   and goes with the last of them.

   Program: fns: functions [params, stmts] (the first is the main one), clos: bodies [modes: seq of [n, m], stmts],
   vars: seq of declarations [k, ref], by the number of the variable; k is "int", "obj" (a class that reports its
   initialization, assignment and termination), "srd" (a SrdRef to such an object) or "clo"; ref: declared as a reference.
   Statements: [o, v, w, n, b, a].
   State: cells of [k, v]; heap of closure records [b, caps, rc]; objs: shared objects [n, rc]; trace; bad: the program
   did something outside the domain (used what is gone, called nothing, freed the record of a running closure);
   act: the records of running closures. Bindings: [n, ref, cell]. *)
EXTENDS Integers, Sequences, TLC

Say(s, e, n) == [s EXCEPT !.trace = Append(@, [e |-> e, n |-> n])]
Bad(s) == [s EXCEPT !.bad = TRUE]
RECURSIVE Find(_, _, _)
Find(env, n, i) == IF i = 0 THEN 0 ELSE IF env[i].n = n THEN i ELSE Find(env, n, i - 1)
Cell(env, n) == env[Find(env, n, Len(env))].cell

(* ---- what a body mentions, in the order of the text *)
Names(q, m) == CASE q.o = "make" -> <<q.v>> \o m
                 [] q.o = "copy" -> <<q.v, q.w>>
                 [] q.o = "def" -> <<>>
                 [] OTHER -> <<q.v>>
RECURSIVE Mentions(_, _, _), InBody(_, _)
(* the names used by statements i.. of st, those of the bodies they make included *)
Mentions(P, st, i) == IF i > Len(st) THEN <<>>
                      ELSE Names(st[i], IF st[i].o = "make" THEN LET m == P.clos[st[i].b].modes IN [j \in 1..Len(m) |-> m[j].n] \o InBody(P, st[i].b) ELSE <<>>)
                           \o Mentions(P, st, i + 1)
InBody(P, b) == LET st == P.clos[b].stmts
                    own == {st[i].v : i \in {j \in 1..Len(st) : st[j].o = "def"}}
                    all == Mentions(P, st, 1)
                    Out(x) == x \notin own
                IN SelectSeq(all, Out)
RECURSIVE Unique(_, _)
Unique(q, seen) == IF q = <<>> THEN <<>> ELSE IF Head(q) \in seen THEN Unique(Tail(q), seen) ELSE <<Head(q)>> \o Unique(Tail(q), seen \cup {Head(q)})
Captured(P, b) == Unique(InBody(P, b), {})

Mode(P, b, n) == LET m == P.clos[b].modes
                     f == {i \in 1..Len(m) : m[i].n = n}
                 IN IF f = {} THEN "auto" ELSE m[CHOOSE i \in f : TRUE].m
ByRef(P, b, n) == LET d == P.vars[n] m == Mode(P, b, n) IN
                  CASE m = "by_ref" -> TRUE
                    [] m = "by_val" -> FALSE
                    [] m = "identical" -> d.ref
                    [] OTHER -> d.k \in {"obj", "clo"} /\ d.ref

(* ---- life and death *)
RECURSIVE Kill(_, _), KillAll(_, _, _), DropClo(_, _)
DropObj(s, o) == IF o = 0 THEN s
                 ELSE LET t == [s EXCEPT !.objs[o].rc = @ - 1] IN IF t.objs[o].rc = 0 THEN Say(t, "t", t.objs[o].n) ELSE t
DropClo(s, h) == IF h = 0 THEN s
                 ELSE LET t == [s EXCEPT !.heap[h].rc = @ - 1] IN
                      IF t.heap[h].rc > 0 THEN t
                      ELSE IF h \in t.act THEN Bad(t)
                      ELSE KillAll(t, t.heap[h].caps, 1)
Kill(s, c) == LET q == s.cells[c]
                  t == [s EXCEPT !.cells[c] = [k |-> "dead", v |-> 0]]
              IN CASE q.k = "obj" -> Say(t, "t", q.v)
                   [] q.k = "srd" -> DropObj(t, q.v)
                   [] q.k = "clo" -> DropClo(t, q.v)
                   [] OTHER -> t
KillAll(s, bs, i) == IF i > Len(bs) THEN s ELSE KillAll(IF bs[i].ref THEN s ELSE Kill(s, bs[i].cell), bs, i + 1)
Hold(s, k, v) == IF v = 0 THEN s ELSE IF k = "clo" THEN [s EXCEPT !.heap[v].rc = @ + 1] ELSE IF k = "srd" THEN [s EXCEPT !.objs[v].rc = @ + 1] ELSE s
Drop(s, k, v) == IF k = "clo" THEN DropClo(s, v) ELSE IF k = "srd" THEN DropObj(s, v) ELSE s

(* cell c takes the value of a cell of the same kind *)
Assign(s, c, from) ==
  LET k == s.cells[c].k v == s.cells[from].v old == s.cells[c].v IN
  IF k = "dead" \/ s.cells[from].k # k THEN Bad(s)
  ELSE CASE k = "int" -> [s EXCEPT !.cells[c].v = v]
         [] k = "obj" -> Say([s EXCEPT !.cells[c].v = v], "=", v)
         [] OTHER -> Drop([Hold(s, k, v) EXCEPT !.cells[c].v = v], k, old)
New(s, k, v) == LET t == [s EXCEPT !.cells = Append(@, [k |-> k, v |-> v])] IN IF k = "obj" THEN Say(t, "i", 0) ELSE t

RECURSIVE Fresh(_, _, _, _, _), Fill(_, _, _, _)
(* the record of a new closure: the captured values are initialized first, then assigned *)
Fresh(P, b, env, s, q) ==
  IF q = <<>> THEN [caps |-> <<>>, s |-> s]
  ELSE LET n == Head(q)
           r == ByRef(P, b, n)
           t == IF r THEN s ELSE New(s, P.vars[n].k, 0)
           rest == Fresh(P, b, env, t, Tail(q))
       IN [caps |-> <<[n |-> n, ref |-> r, cell |-> IF r THEN Cell(env, n) ELSE Len(t.cells)]>> \o rest.caps, s |-> rest.s]
Fill(s, env, caps, i) == IF i > Len(caps) THEN s
                         ELSE Fill(IF caps[i].ref THEN s ELSE Assign(s, caps[i].cell, Cell(env, caps[i].n)), env, caps, i + 1)
Make(P, b, env, c, s) ==
  LET fr == Fresh(P, b, env, s, Captured(P, b))
      t == Fill(fr.s, env, fr.caps, 1)
      t1 == [t EXCEPT !.heap = Append(@, [b |-> b, caps |-> fr.caps, rc |-> 1])]
      old == t1.cells[c].v
  IN IF t1.cells[c].k # "clo" THEN Bad(t1) ELSE DropClo([t1 EXCEPT !.cells[c].v = Len(t1.heap)], old)

(* ---- running; x: [s, env, own (cells of the frame), r (the sum so far), give (a closure to return)] *)
RECURSIVE Exec(_, _, _, _), Call(_, _, _, _), Invoke(_, _, _, _)
Call(P, h, n, s) ==
  LET rec == s.heap[h]
      x == Exec(P, P.clos[rec.b].stmts, 1, [s |-> [s EXCEPT !.act = @ \cup {h}], env |-> rec.caps, own |-> <<>>, r |-> n, give |-> 0])
  IN IF x.s.bad THEN [s |-> x.s, r |-> 0]
     ELSE [s |-> [KillAll(x.s, x.own, 1) EXCEPT !.act = s.act], r |-> x.r]
(* function f with arguments: for a value parameter a cell of its own, for a reference the caller's *)
Invoke(P, f, cells, s) ==
  LET ps == P.fns[f].params
      base == Len(s.cells)
      RECURSIVE B(_, _) B(i, t) == IF i > Len(ps) THEN [bs |-> <<>>, s |-> t]
         ELSE LET d == P.vars[ps[i]]
                  u == IF d.ref THEN t ELSE New(t, d.k, t.cells[cells[i]].v)
                  rest == B(i + 1, u)
              IN [bs |-> <<[n |-> ps[i], ref |-> d.ref, cell |-> IF d.ref THEN cells[i] ELSE Len(u.cells)]>> \o rest.bs, s |-> rest.s]
      b == B(1, s)
      x == Exec(P, P.fns[f].stmts, 1, [s |-> b.s, env |-> b.bs, own |-> b.bs, r |-> 0, give |-> 0])
  IN IF x.s.bad THEN [s |-> x.s, give |-> 0]
     ELSE [s |-> KillAll(Hold(x.s, "clo", x.give), x.own, 1), give |-> x.give]

(* the number a variable stands for; objects through their member *)
Num(s, c) == CASE s.cells[c].k = "srd" -> s.objs[s.cells[c].v].n
               [] s.cells[c].k = "clo" -> IF s.cells[c].v = 0 THEN 1 ELSE 0     \* isNull
               [] OTHER -> s.cells[c].v
Usable(s, c) == s.cells[c].k # "dead" /\ (s.cells[c].k = "srd" => s.cells[c].v # 0)
Exec(P, st, i, x) ==
  IF i > Len(st) \/ x.s.bad THEN x
  ELSE
    LET q == st[i]
        s == x.s
        c == IF q.o = "def" THEN 0 ELSE Cell(x.env, q.v)
        y == CASE q.o = "def" -> IF P.vars[q.v].ref
                                 THEN [x EXCEPT !.env = Append(@, [n |-> q.v, ref |-> TRUE, cell |-> Cell(x.env, q.w)])]
                                 ELSE LET t == New(s, P.vars[q.v].k, q.n)
                                          bd == [n |-> q.v, ref |-> FALSE, cell |-> Len(t.cells)]
                                      IN [x EXCEPT !.s = t, !.env = Append(@, bd), !.own = Append(@, bd)]
               [] q.o = "add" -> IF ~Usable(s, c) THEN [x EXCEPT !.s = Bad(s)]
                                 ELSE IF s.cells[c].k = "srd" THEN [x EXCEPT !.s.objs[s.cells[c].v].n = @ + q.n]
                                 ELSE [x EXCEPT !.s.cells[c].v = @ + q.n]
               [] q.o = "say" -> IF s.cells[c].k = "clo" \/ Usable(s, c) THEN [x EXCEPT !.s = Say(s, "s", Num(s, c))] ELSE [x EXCEPT !.s = Bad(s)]
               [] q.o = "acc" -> IF Usable(s, c) THEN [x EXCEPT !.r = @ + Num(s, c)] ELSE [x EXCEPT !.s = Bad(s)]
               [] q.o = "make" -> [x EXCEPT !.s = Make(P, q.b, x.env, c, s)]
               [] q.o = "call" -> IF s.cells[c].k # "clo" \/ s.cells[c].v = 0 \/ s.cells[c].v \in s.act THEN [x EXCEPT !.s = Bad(s)]
                                  ELSE LET o == Call(P, s.cells[c].v, q.n, s) IN [x EXCEPT !.s = Say(o.s, "r", o.r), !.r = @ + o.r]
               [] q.o = "copy" -> [x EXCEPT !.s = Assign(s, c, Cell(x.env, q.w))]
               [] q.o = "rel" -> IF s.cells[c].k = "dead" THEN [x EXCEPT !.s = Bad(s)]
                                 ELSE [x EXCEPT !.s = Drop([s EXCEPT !.cells[c].v = 0], s.cells[c].k, s.cells[c].v)]
               [] q.o = "new" -> IF s.cells[c].k # "srd" THEN [x EXCEPT !.s = Bad(s)]
                                 ELSE [x EXCEPT !.s = LET t == DropObj([s EXCEPT !.cells[c].v = 0], s.cells[c].v)
                                                          u == Say(t, "i", 0)
                                                      IN [u EXCEPT !.objs = Append(@, [n |-> 0, rc |-> 1]), !.cells[c].v = Len(u.objs) + 1]]
               [] q.o = "give" -> [x EXCEPT !.give = s.cells[c].v]
               [] q.o = "mk" -> LET o == Invoke(P, q.b, [j \in 1..Len(q.a) |-> Cell(x.env, q.a[j])], s)
                                    t == o.s
                                IN IF t.bad \/ t.cells[c].k # "clo" THEN [x EXCEPT !.s = Bad(t)]
                                   ELSE [x EXCEPT !.s = DropClo([t EXCEPT !.cells[c].v = o.give], t.cells[c].v)]
    IN Exec(P, st, i + 1, y)
Start == [cells |-> <<>>, heap |-> <<>>, objs |-> <<>>, trace |-> <<>>, bad |-> FALSE, act |-> {}]
=============================================================================
