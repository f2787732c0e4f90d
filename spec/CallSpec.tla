------------------------------ MODULE CallSpec ------------------------------
(* Calls.  A callee is a body with parameters; whatever form the call is written in (by name, qualified, through an
   alias, a function pointer, a method, a property, an operator, an injected member ...) it designates one body, one
   receiver and the arguments.

   Store: a sequence of integer cells: the variables, the objects' numbers, then the value parameters of the calls in
   progress.  Object i is cell Objs + i.  Pointers: slots (a function number each), qs (an object number each).

   Body: [params: seq of [ref: BOOLEAN], eff: seq of [e, i, x: seq of expressions], ret: [k, i]]
   Expressions: [k, n, c, a, r]: "lit" n; "var" n; "par" n; "fld" r[1]; "plus" a[1] + n;
     "call" of the body c with arguments a and receiver r (none or one);
     "slot" the same of the body slot n points to; "mslot" of the body the slot of the receiver points to
   Receivers: [k, n, a]: "obj" n; "this"; "deref" the object pointer n points to; "call": the object a call of body c
     with ret.k = "this" returns; "pick": object 1 or 2 by the value of a[1] being even or odd, traced *)
EXTENDS Integers, Sequences, TLC

CONSTANT Objs       \* the number of variables: cell Objs + i is object i

(* the state an evaluation threads through: cells, trace; slots and qs do not change during one *)
Deref(s, x) == IF x.ref THEN s.cells[x.v] ELSE x.v
Val(n) == [ref |-> FALSE, v |-> n]
Ref(c) == [ref |-> TRUE, v |-> c]
Say(s, t) == [s EXCEPT !.trace = Append(@, t)]
Ev(f, p, th, vals) == [f |-> f, at |-> p, th |-> th, vals |-> vals]

RECURSIVE Eval(_, _, _, _), EvalAll(_, _, _, _, _), Recv(_, _, _, _), Run(_, _, _, _, _), Effects(_, _, _, _, _)
(* Eval: the prog P, the environment env [par: cells, this: object or 0], expression e, state s -> [x, s] *)
EvalAll(P, env, a, s, i) ==
  IF i > Len(a) THEN [xs |-> <<>>, s |-> s]
  ELSE LET h == Eval(P, env, a[i], s)
           t == EvalAll(P, env, a, h.s, i + 1)
       IN [xs |-> <<h.x>> \o t.xs, s |-> t.s]
Recv(P, env, r, s) ==
  CASE r.k = "obj" -> [o |-> r.n, s |-> s]
    [] r.k = "this" -> [o |-> env.this, s |-> s]
    [] r.k = "deref" -> [o |-> s.qs[r.n], s |-> s]
    [] r.k = "pick" -> LET h == Eval(P, env, r.a[1], s)
                           v == Deref(h.s, h.x)
                       IN [o |-> 1 + (v % 2), s |-> Say(h.s, Ev(0, 0, 0, <<v>>))]
    [] OTHER -> LET h == Eval(P, env, r, s) IN [o |-> h.x.v - Objs, s |-> h.s]
Eval(P, env, e, s) ==
  CASE e.k = "lit" -> [x |-> Val(e.n), s |-> s]
    [] e.k = "var" -> [x |-> Ref(e.n), s |-> s]
    [] e.k = "par" -> [x |-> Ref(env.par[e.n]), s |-> s]
    [] e.k = "fld" -> LET h == Recv(P, env, e.r[1], s) IN [x |-> Ref(Objs + h.o), s |-> h.s]
    [] e.k = "plus" -> LET h == Eval(P, env, e.a[1], s) IN [x |-> Val(Deref(h.s, h.x) + e.n), s |-> h.s]
    [] OTHER ->
       LET as == EvalAll(P, env, e.a, s, 1)      \* the arguments from left to right, then the receiver
           rv == IF e.r = <<>> THEN [o |-> 0, s |-> as.s] ELSE Recv(P, env, e.r[1], as.s)
           f == CASE e.k = "call" -> e.c
                  [] e.k = "slot" -> rv.s.slots[e.n]
                  [] e.k = "mslot" -> rv.s.mslots[rv.o][e.n]
       IN Run(P, f, rv.o, as.xs, rv.s)
(* run body f: value parameters get cells of their own, holding the arguments' values now *)
Run(P, f, th, xs, s) ==
  LET F == P[f]
      base == Len(s.cells)
      np == Len(F.params)
      vals == [i \in 1..np |-> Deref(s, xs[i])]
      par == [i \in 1..np |-> IF F.params[i].ref THEN xs[i].v ELSE base + i]
      s1 == [s EXCEPT !.cells = @ \o vals]
      env == [par |-> par, this |-> th]
      look(t) == [i \in 1..np |-> t.cells[par[i]]]
      me(t) == IF th = 0 THEN 0 ELSE t.cells[Objs + th]
      s2 == Effects(P, F.eff, env, Say(s1, Ev(f, 1, me(s1), look(s1))), 1)
      s3 == Say(s2, Ev(f, 2, me(s2), look(s2)))
      sum == LET RECURSIVE S(_) S(i) == IF i = 0 THEN F.ret.i ELSE s3.cells[par[i]] + S(i - 1) IN S(np)
      x == CASE F.ret.k = "sum" -> Val(sum)
             [] F.ret.k = "ref" -> Ref(par[F.ret.i])
             [] F.ret.k = "this" -> Ref(Objs + th)
             [] OTHER -> Val(0)
  IN [x |-> x, s |-> [s3 EXCEPT !.cells = SubSeq(@, 1, base)]]
Effects(P, eff, env, s, i) ==
  IF i > Len(eff) THEN s
  ELSE LET q == eff[i]
           t == CASE q.e = "par" -> [s EXCEPT !.cells[env.par[q.i]] = @ + q.n]
                  [] q.e = "var" -> [s EXCEPT !.cells[q.i] = @ + q.n]
                  [] q.e = "this" -> [s EXCEPT !.cells[Objs + env.this] = @ + q.n]
                  [] q.e = "do" -> Eval(P, env, q.x[1], s).s
       IN Effects(P, eff, env, t, i + 1)

NoEnv == [par |-> <<>>, this |-> 0]
(* statements: "do" x; "print" x; "set" the cell l denotes to x; "fp" slot i to body n; "mp" slot i of object o; "q" *)
Step(P, st, s) ==
  CASE st.o = "do" -> Eval(P, NoEnv, st.x[1], s).s
    [] st.o = "print" -> LET h == Eval(P, NoEnv, st.x[1], s) IN Say(h.s, Ev(0, 1, 0, <<Deref(h.s, h.x)>>))
    [] st.o = "set" -> LET h == Eval(P, NoEnv, st.x[1], s)           \* the value first, then where it goes
                           l == Eval(P, NoEnv, st.l[1], h.s)
                       IN [l.s EXCEPT !.cells[l.x.v] = Deref(l.s, h.x)]
    [] st.o = "fp" -> [s EXCEPT !.slots[st.i] = st.n]
    [] st.o = "mp" -> [s EXCEPT !.mslots[st.q][st.i] = st.n]
    [] st.o = "q" -> [s EXCEPT !.qs[st.i] = st.n]
=============================================================================
