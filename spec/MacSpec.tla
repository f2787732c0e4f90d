------------------------------ MODULE MacSpec ------------------------------
(* Macros and preprocess statements as tree rewriting.  A node is [k, s, n, z, v, c, m]: kind; text s, or s__n__z / s{{n}}z
   when n # ""; number; children; interpolation map (of "ins").  Kinds
     expressions  num  id  oid (an object)  str  chr  add sub mul  call  fget <<object, field>>  pre (one ins of an expression)
     uses         use (macro by name)  muse (member macro: <<object, argument..>>)
     statements   def <<init>>  obj (class s)  asg <<lhs, expr>>  fset <<object, field, expr>>  out <<str, expr>>  if <<cond, blk, blk>>  blk
                  pre <<statement..>>
     in a pre     mark <<str, expr>>  ins <<ast>> (np: the ast is inserted unprocessed: v = 1)  rep (v times)  blk
     top level    func <<par.., blk, ret>>  class <<fld | use | pre | ..>>  use  pre
   p = [macs |-> seq of [name, params, body, cls (class of a member macro, "" if none)], tops |-> seq of nodes]. *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Nd(k, s, v, c) == [k |-> k, s |-> s, n |-> "", z |-> "", v |-> v, c |-> c, m |-> <<>>]
Err == Nd("err", "", 0, <<>>)
Names == {"id", "oid"}
TextOf(t) == IF t.n = "" THEN t.s ELSE IF t.k = "str" THEN t.s \o "{{" \o t.n \o "}}" \o t.z ELSE t.s \o "__" \o t.n \o "__" \o t.z
RECURSIVE HasErr(_)
HasErr(t) == t.k = "err" \/ \E i \in DOMAIN t.c : HasErr(t.c[i])
Pos(ps, x) == IF x # "" /\ \E i \in DOMAIN ps : ps[i] = x THEN CHOOSE i \in DOMAIN ps : ps[i] = x ELSE 0

\* All parameters at once; what replaces them is not looked at again.
RECURSIVE Subst(_, _, _)
\* the node's own name
Rename(t, ps, as, kinds) ==
  LET w == Pos(ps, t.s) q == Pos(ps, t.n) IN
  IF t.n = "" THEN (IF w = 0 THEN t ELSE IF as[w].k \in kinds THEN [t EXCEPT !.s = TextOf(as[w])] ELSE Err)
  ELSE IF q = 0 THEN t
  ELSE IF as[q].k \notin kinds THEN Err
  ELSE IF t.z = "{{a}}" THEN [t EXCEPT !.s = t.s \o TextOf(as[q]), !.n = "a", !.z = ""]   \* (the next variable part)
  ELSE [t EXCEPT !.s = t.s \o TextOf(as[q]) \o t.z, !.n = "", !.z = ""]
Subst(t, ps, as) ==
  LET me == CASE t.k = "id" /\ t.n = "" /\ Pos(ps, t.s) # 0 -> (LET a == as[Pos(ps, t.s)] IN IF a.k = "tstr" THEN [a EXCEPT !.k = "str"] ELSE a)
              [] t.k = "id" /\ t.n # "" -> Rename(t, ps, as, Names \cup {"tstr"})
              [] t.k = "str" -> IF t.n = "" THEN t ELSE Rename(t, ps, as, Names \cup {"str", "tstr"})
              [] t.k \in {"def", "obj", "func", "fld"} -> Rename(t, ps, as, Names \cup {"str", "tstr"})
              [] t.k \in {"par", "use", "muse", "call"} -> Rename(t, ps, as, IF t.k = "par" \/ t.n # "" THEN Names \cup {"tstr"} ELSE Names)
              [] OTHER -> t IN
  IF t.k = "id" THEN me
  ELSE IF me.k = "err" THEN me
  ELSE [me EXCEPT !.c = [i \in DOMAIN t.c |-> Subst(t.c[i], ps, as)]]

\* The macro a use stands for: the one with this name and number of arguments.
Macro(p, t) ==
  LET cls == IF t.k = "muse" THEN (IF t.c[1].k = "oid" THEN p.cls[t.c[1].v] ELSE "?") ELSE ""
      S == {i \in DOMAIN p.macs : p.macs[i].name = t.s /\ p.macs[i].cls = cls /\ Len(p.macs[i].params) = Len(t.c)} IN
  IF t.n # "" \/ S = {} THEN 0 ELSE CHOOSE i \in S : TRUE
\* A block body stands for its statements; one whose only content is one statement for that statement.
Body(t) == IF t.k = "blk" THEN t.c ELSE <<t>>
Unwrap(l) == IF Len(l) = 1 THEN Body(l[1]) ELSE l
Single(l) == IF Len(l) = 1 THEN l[1] ELSE Nd("blk", "", 0, l)
Expand(p, t) == LET i == Macro(p, t) IN IF i = 0 THEN <<Err>> ELSE Unwrap(Body(Subst(p.macs[i].body, p.macs[i].params, t.c)))

IsList(t) == t.k \in {"blk", "pre", "rep", "tops", "class"}
ListNode(t) == t.k \in {"blk", "tops", "class"}
\* statements of a pre being run: what it prints (m), what it inserts (a)
Value(e, it) == CASE e.k = "int" -> Nd("num", "", e.v, <<>>) [] e.k = "id" -> Nd("id", e.t, 0, <<>>) [] e.k = "str" -> Nd("str", e.t, 0, <<>>)
                  [] e.k = "tstr" -> Nd("tstr", e.t, 0, <<>>)
                  [] e.k = "tint" -> [Nd("num", "", e.v, <<>>) EXCEPT !.s = "t"] [] e.k = "loop" -> [Nd("num", "", it, <<>>) EXCEPT !.s = "t"]
Ins(t, it) == Subst(t.c[1], [i \in DOMAIN t.m |-> t.m[i].s], [i \in DOMAIN t.m |-> Value(t.m[i], it)])

-----------------------------------------------------------------------------
\* Running code.  BAD: not predicted (an unset variable, a number out of range).
BAD == 99999999
Num(a) == IF a > 100000 \/ a < -100000 THEN BAD ELSE a
Arith(k, a, b) == IF a = BAD \/ b = BAD THEN BAD ELSE
  CASE k = "add" -> Num(a + b) [] k = "sub" -> Num(a - b)
    [] k = "mul" -> IF a > 20000 \/ a < -20000 \/ b > 20000 \/ b < -20000 THEN BAD ELSE Num(a * b)
\* env: scopes, innermost last; a scope maps a name to a number
Find(env, x) == LET S == {i \in DOMAIN env : x \in DOMAIN env[i]} IN IF S = {} THEN 0 ELSE CHOOSE i \in S : \A j \in S : j <= i
Get(env, x) == IF Find(env, x) = 0 THEN BAD ELSE env[Find(env, x)][x]
Put(env, x, v) == LET i == Find(env, x) IN IF i = 0 THEN env ELSE [env EXCEPT ![i] = (x :> v) @@ @]
FuncAt(fs, x) == IF \E i \in DOMAIN fs : fs[i].s = x THEN CHOOSE i \in DOMAIN fs : fs[i].s = x ELSE 0
RECURSIVE Eval(_, _, _), Exec(_, _, _)
\* fs: processed functions.  A state of execution: [env, out]
Eval(fs, env, t) ==
  CASE t.k = "num" -> t.v
    [] t.k = "chr" -> t.v
    [] t.k = "id" -> Get(env, TextOf(t))
    [] t.k \in {"add", "sub", "mul"} -> Arith(t.k, Eval(fs, env, t.c[1]), Eval(fs, env, t.c[2]))
    [] t.k = "fget" -> Get(env, t.c[1].s \o "." \o TextOf(t.c[2]))
    [] t.k = "call" -> LET i == FuncAt(fs, TextOf(t)) IN
         IF i = 0 THEN BAD
         ELSE LET f == fs[i] l == Len(f.c) a == [j \in 1..(l - 2) |-> Eval(fs, env, t.c[j])]
                  e0 == <<[x \in {f.c[j].s : j \in 1..(l - 2)} |-> a[CHOOSE j \in 1..(l - 2) : f.c[j].s = x]]>>
                  st == Exec(fs, [env |-> e0, out |-> <<>>], f.c[l - 1].c) IN
              IF \E j \in 1..(l - 2) : a[j] = BAD THEN BAD ELSE Eval(fs, st.env, f.c[l])
    [] OTHER -> BAD
Exec(fs, st, l) ==
  IF l = <<>> THEN st
  ELSE LET t == l[1] n == Len(st.env)
           next == CASE t.k = "def" -> [st EXCEPT !.env[n] = (TextOf(t) :> Eval(fs, st.env, t.c[1])) @@ @]
                     [] t.k = "obj" -> st
                     [] t.k = "asg" -> [st EXCEPT !.env = Put(st.env, TextOf(t.c[1]), Eval(fs, st.env, t.c[2]))]
                     [] t.k = "fset" -> [st EXCEPT !.env[1] = ((t.c[1].s \o "." \o TextOf(t.c[2])) :> Eval(fs, st.env, t.c[3])) @@ @]
                     [] t.k = "out" -> [st EXCEPT !.out = Append(@, [s |-> TextOf(t.c[1]), v |-> Eval(fs, st.env, t.c[2])])]
                     [] t.k = "if" -> (LET w == Eval(fs, st.env, t.c[1]) IN IF w = BAD THEN [st EXCEPT !.out = Append(@, [s |-> "", v |-> BAD])]
                                       ELSE Exec(fs, st, <<IF w # 0 THEN t.c[2] ELSE t.c[3]>>))
                     [] t.k = "blk" -> (LET r == Exec(fs, [st EXCEPT !.env = Append(@, <<>>)], t.c) IN [r EXCEPT !.env = SubSeq(@, 1, n)])
                     [] OTHER -> st IN
       Exec(fs, next, Tail(l))
\* ... and what makes it invalid.  vis: the names defined so far, and those defined anywhere, of each scope
Cnt(l, x) == Cardinality({i \in DOMAIN l : l[i].k = "def" /\ TextOf(l[i]) = x})
RECURSIVE Bad(_, _, _, _), BadL(_, _, _, _, _)
Fields(cs, o) == LET S == {i \in DOMAIN cs : cs[i].s = o} IN IF S = {} THEN {} ELSE LET c == cs[CHOOSE i \in S : TRUE] IN {TextOf(c.c[j]) : j \in {k \in DOMAIN c.c : c.c[k].k = "fld"}}
Bad(p, u, sc, t) ==
  CASE t.k \in {"num", "chr", "str"} -> FALSE
    [] t.k = "id" -> (LET S == {i \in DOMAIN sc : TextOf(t) \in sc[i].all} IN
         S = {} \/ TextOf(t) \notin sc[CHOOSE i \in S : \A j \in S : j <= i].now)
    [] t.k \in {"add", "sub", "mul"} -> \E i \in DOMAIN t.c : t.c[i].k = "str" \/ Bad(p, u, sc, t.c[i])
    [] t.k = "call" -> \/ t.n # "" \/ FuncAt(u.fs, t.s) = 0 \/ (\E i \in DOMAIN sc : t.s \in sc[i].all)
                       \/ Len(u.fs[FuncAt(u.fs, t.s)].c) # Len(t.c) + 2
                       \/ \E i \in DOMAIN t.c : t.c[i].k = "str" \/ Bad(p, u, sc, t.c[i])
    [] t.k = "fget" -> t.c[1].k # "oid" \/ t.c[2].k # "id" \/ TextOf(t.c[2]) \notin Fields(u.cs, p.cls[t.c[1].v])
    [] t.k = "def" -> t.n # "" \/ t.c[1].k = "str" \/ Bad(p, u, sc, t.c[1])
    [] t.k = "obj" -> FALSE
    [] t.k = "asg" -> t.c[1].k # "id" \/ t.c[2].k = "str" \/ Bad(p, u, sc, t.c[1]) \/ Bad(p, u, sc, t.c[2])
    [] t.k = "fset" -> Bad(p, u, sc, [t EXCEPT !.k = "fget"]) \/ t.c[3].k = "str" \/ Bad(p, u, sc, t.c[3])
    [] t.k = "out" -> t.c[1].k # "str" \/ t.c[2].k = "str" \/ Bad(p, u, sc, t.c[2])
    [] t.k = "if" -> t.c[1].k = "str" \/ Bad(p, u, sc, t.c[1]) \/ BadL(p, u, sc, <<t.c[2]>>, 1) \/ BadL(p, u, sc, <<t.c[3]>>, 1)
    [] t.k = "blk" -> BadL(p, u, Append(sc, [all |-> {TextOf(t.c[i]) : i \in {j \in DOMAIN t.c : t.c[j].k = "def"}}, now |-> {}]), t.c, 1)
    [] OTHER -> TRUE
BadL(p, u, sc, l, i) ==
  IF i > Len(l) THEN FALSE
  ELSE \/ Bad(p, u, sc, l[i])
       \/ BadL(p, u, IF l[i].k = "def" THEN [sc EXCEPT ![Len(sc)].now = @ \cup {TextOf(l[i])}] ELSE sc, l, i + 1)
BadFunc(p, u, f) == LET l == Len(f.c) ps == {f.c[j].s : j \in 1..(l - 2)} b == f.c[l - 1].c IN
  \/ f.n # "" \/ HasErr(f)
  \/ \E j \in DOMAIN f.c : f.c[j].k = "par" /\ f.c[j].n # ""
  \/ BadL(p, u, <<[all |-> ps, now |-> ps], [all |-> {TextOf(b[i]) : i \in {j \in DOMAIN b : b[j].k = "def"}}, now |-> {}]>>, b \o <<Nd("out", "", 0, <<Nd("str", "", 0, <<>>), f.c[l]>>)>>, 1)
\* a name defined twice in a scope (the outcome is not predicted)
RECURSIVE Dup(_)
Dup(t) == \/ (ListNode(t) /\ \E i, j \in DOMAIN t.c : i < j /\ t.c[i].k = t.c[j].k /\ t.c[i].k \in {"def", "fld", "func"} /\ TextOf(t.c[i]) = TextOf(t.c[j]))
          \/ (t.k = "func" /\ \E i \in 1..(Len(t.c) - 2) : \E j \in 1..(Len(t.c) - 2) : i < j /\ TextOf(t.c[i]) = TextOf(t.c[j]))
          \/ (t.k = "func" /\ \E i \in 1..(Len(t.c) - 2) : \E j \in DOMAIN t.c[Len(t.c) - 1].c : t.c[Len(t.c) - 1].c[j].k = "def" /\ TextOf(t.c[Len(t.c) - 1].c[j]) = TextOf(t.c[i]))
          \/ \E i \in DOMAIN t.c : Dup(t.c[i])
\* a string or a statement where a value belongs (the outcome is not predicted)
RECURSIVE Odd(_)
Odd(t) == \/ \E i \in DOMAIN t.c : t.c[i].k \in {"str", "out", "asg", "fset"} /\
               (t.k \in {"add", "sub", "mul", "call", "fget", "def"} \/ (t.k \in {"asg", "fset", "out", "if"} /\ i = (IF t.k = "if" THEN 1 ELSE Len(t.c))))
          \/ (t.k = "asg" /\ t.c[1].k \in {"asg", "fset", "fget", "str", "out"})
          \/ \E i \in DOMAIN t.c : Odd(t.c[i])

-----------------------------------------------------------------------------
\* Units are processed on demand: the top level, then functions and classes.
RECURSIVE CallsIn(_), ObjsIn(_)
CallsIn(t) == (IF t.k = "call" THEN {TextOf(t)} ELSE {}) \cup
  (IF t.k = "ins" THEN {} ELSE UNION {CallsIn(t.c[i]) : i \in DOMAIN t.c})
ObjsIn(t) == (IF t.k = "obj" THEN {t.v} ELSE {}) \cup (IF t.k = "ins" THEN {} ELSE UNION {ObjsIn(t.c[i]) : i \in DOMAIN t.c})

\* Declarative meaning: what a list of nodes stands for, and what is printed meanwhile.
\* [l |-> nodes, log |-> seq of [s, v, d (functions called by the pre)], err]
RECURSIVE BadMark(_, _, _), P1(_, _, _), PL(_, _, _), RunPre(_, _, _, _), FuncsOf(_, _, _, _)
Join(a, b) == [l |-> a.l \o b.l, log |-> a.log \o b.log, err |-> a.err \/ b.err]
PL(p, tops, l) == IF l = <<>> THEN [l |-> <<>>, log |-> <<>>, err |-> FALSE]
                  ELSE LET a == P1(p, tops, l[1]) IN IF a.err THEN a ELSE Join(a, PL(p, tops, Tail(l)))
BadMark(p, fs, t) == \/ (t.k = "mark" /\ Bad(p, [fs |-> fs, cs |-> <<>>], <<>>, [t EXCEPT !.k = "out"]))
                      \/ (t.k = "rep" /\ \E i \in DOMAIN t.c : BadMark(p, fs, t.c[i]))
BadPre(p, fs, l) == \/ \E i \in DOMAIN fs : BadFunc(p, [fs |-> fs, cs |-> <<>>], fs[i])
                    \/ \E i \in DOMAIN l : BadMark(p, fs, l[i])
\* tops: the processed top level (its functions are not processed themselves)
P1(p, tops, t) ==
  CASE t.k = "err" -> [l |-> <<t>>, log |-> <<>>, err |-> TRUE]
    [] t.k \in {"use", "muse"} -> PL(p, tops, Expand(p, t))
    [] t.k = "pre" ->
         (LET b == PL(p, tops, t.c) d == UNION {CallsIn(b.l[i]) : i \in DOMAIN b.l}
              fs == FuncsOf(p, tops, d, {}) IN
          IF b.err \/ fs.err \/ BadPre(p, fs.l, b.l)
          THEN [l |-> <<>>, log |-> b.log, err |-> TRUE]
          ELSE LET r == RunPre(fs.l, b.l, 0, d) x == PL(p, tops, r.l) IN
               [l |-> x.l, log |-> b.log \o r.log \o x.log, err |-> x.err])
    [] t.k \in {"func", "class"} -> [l |-> <<t>>, log |-> <<>>, err |-> FALSE]
    [] t.k = "ins" /\ t.v = 1 -> [l |-> <<t>>, log |-> <<>>, err |-> FALSE]
    [] ListNode(t) \/ t.k = "rep" -> (LET r == PL(p, tops, t.c) IN [r EXCEPT !.l = <<[t EXCEPT !.c = r.l]>>])
    [] t.c = <<>> -> [l |-> <<t>>, log |-> <<>>, err |-> FALSE]
    [] OTHER -> LET r == [i \in DOMAIN t.c |-> P1(p, tops, t.c[i])]
                    F[i \in 0..Len(t.c)] == IF i = 0 THEN [l |-> <<>>, log |-> <<>>, err |-> FALSE]
                       ELSE IF F[i - 1].err THEN F[i - 1] ELSE Join(F[i - 1], [r[i] EXCEPT !.l = <<Single(@)>>]) IN
                [F[Len(t.c)] EXCEPT !.l = <<[t EXCEPT !.c = F[Len(t.c)].l]>>]
RunPre(fs, l, it, d) ==
  IF l = <<>> THEN [l |-> <<>>, log |-> <<>>, err |-> FALSE]
  ELSE LET t == l[1]
           a == CASE t.k = "mark" -> [l |-> <<>>, log |-> <<[s |-> TextOf(t.c[1]), v |-> Eval(fs, <<>>, t.c[2]), d |-> d]>>, err |-> FALSE]
                  [] t.k = "ins" -> [l |-> Body(Ins(t, it)), log |-> <<>>, err |-> FALSE]
                  [] t.k = "rep" -> (LET F[i \in 0..t.v] == IF i = 0 THEN [l |-> <<>>, log |-> <<>>, err |-> FALSE]
                                             ELSE Join(F[i - 1], RunPre(fs, t.c, i - 1, d)) IN F[t.v])
                  [] OTHER -> [l |-> <<>>, log |-> <<>>, err |-> TRUE] IN
       Join(a, RunPre(fs, Tail(l), it, d))
\* the processed functions reached from names d
FuncsOf(p, tops, d, seen) ==
  LET todo == {x \in d \ seen : FuncAt(tops, x) # 0 /\ tops[FuncAt(tops, x)].k = "func"} IN
  IF todo = {} THEN [l |-> <<>>, log |-> <<>>, err |-> FALSE]
  ELSE LET x == CHOOSE x \in todo : TRUE
           f == P1(p, tops, Nd("unit", "", 0, tops[FuncAt(tops, x)].c))
           g == [tops[FuncAt(tops, x)] EXCEPT !.c = f.l[1].c]
           rest == FuncsOf(p, tops, d \cup (IF f.err THEN {} ELSE CallsIn(g) \cup UNION {f.log[i].d : i \in DOMAIN f.log}), seen \cup {x}) IN
       IF f.err THEN [l |-> <<>>, log |-> <<>>, err |-> TRUE] ELSE [rest EXCEPT !.l = <<g>> \o @]
TopsOf(p) == PL(p, <<>>, p.tops)
ProcClass(p, tops, x) == P1(p, tops, [tops[FuncAt(tops, x)] EXCEPT !.k = "blk"])
Meaning(p) ==
  LET T == TopsOf(p) tops == T.l
      F == FuncsOf(p, tops, {"main"}, {}) fs == F.l
      objs == UNION {ObjsIn(fs[i]) : i \in DOMAIN fs}
      cls == {p.cls[i] : i \in objs}
      C == [x \in cls |-> ProcClass(p, tops, x)]
      cseq == LET RECURSIVE S(_) S(X) == IF X = {} THEN <<>> ELSE LET x == CHOOSE x \in X : TRUE IN <<[C[x].l[1] EXCEPT !.s = x]>> \o S(X \ {x}) IN IF \E x \in cls : C[x].err THEN <<>> ELSE S(cls)
      u == [fs |-> fs, cs |-> cseq]
      bad == T.err \/ F.err \/ (\E x \in cls : C[x].err \/ HasErr(C[x].l[1])) \/ \E i \in DOMAIN fs : BadFunc(p, u, fs[i])
      st == Exec(fs, [env |-> <<<<>>>>, out |-> <<>>], fs[FuncAt(fs, "main")].c[1].c)
      dup == (\E i \in DOMAIN fs : Dup(fs[i])) \/ Dup(Nd("blk", "", 0, tops)) \/ \E i \in DOMAIN cseq : Dup([cseq[i] EXCEPT !.k = "blk"]) IN
  IF bad THEN [ok |-> FALSE, skip |-> dup \/ (\E i \in DOMAIN fs : Odd(fs[i])), out |-> <<>>, logs |-> <<>>]
  ELSE [ok |-> TRUE, skip |-> dup \/ (\E i \in DOMAIN fs : Odd(fs[i])) \/ (\E i \in DOMAIN st.out : st.out[i].v = BAD), out |-> st.out,
        logs |-> <<[u |-> "", log |-> T.log]>> \o
                 [i \in DOMAIN fs |-> [u |-> fs[i].s, log |-> P1(p, tops, Nd("unit", "", 0, tops[FuncAt(tops, fs[i].s)].c)).log]] \o
                 [i \in DOMAIN cseq |-> [u |-> cseq[i].s, log |-> C[cseq[i].s].log]]]

-----------------------------------------------------------------------------
\* The machine: one rewriting at a time, outermost use first, a pre when nothing is left to rewrite in it and the functions it
\* calls are processed; units in any order that allows.
RECURSIVE Redex(_, _), Rewrite(_, _, _), Sub(_, _)
Redex(t, root) ==
  IF t.k \in {"use", "muse", "err"} THEN << <<>> >>
  ELSE IF (t.k = "ins" /\ t.v = 1) \/ (t.k \in {"func", "class"} /\ ~root) THEN <<>>
  ELSE LET S == {i \in DOMAIN t.c : Redex(t.c[i], FALSE) # <<>>} IN
       IF S # {} THEN LET i == CHOOSE i \in S : \A j \in S : i <= j IN << <<i>> \o Redex(t.c[i], FALSE)[1] >>
       ELSE IF t.k = "pre" THEN << <<>> >> ELSE <<>>
Sub(t, path) == IF path = <<>> THEN t ELSE Sub(t.c[path[1]], Tail(path))
Rewrite(t, path, l) ==
  LET i == path[1] IN
  IF Len(path) > 1 THEN [t EXCEPT !.c[i] = Rewrite(t.c[i], Tail(path), l)]
  ELSE IF IsList(t) THEN [t EXCEPT !.c = SubSeq(t.c, 1, i - 1) \o l \o SubSeq(t.c, i + 1, Len(t.c))]
  ELSE [t EXCEPT !.c[i] = Single(l)]
Start(p) == [stack |-> <<[u |-> "", t |-> Nd("tops", "", 0, p.tops)]>>, done |-> <<>>, log |-> <<>>, err |-> FALSE]
Tops(st) == st.done[1].t.c
IsDone(st, x) == \E i \in DOMAIN st.done : st.done[i].u = x
DoneTree(st, x) == st.done[CHOOSE i \in DOMAIN st.done : st.done[i].u = x].t
DoneFuncs(st) == LET q == SelectSeq(st.done, LAMBDA r : r.t.k = "func") IN [i \in DOMAIN q |-> q[i].t]
RECURSIVE Reach(_, _)
\* names reached from those in X through processed functions
Reach(st, X) == LET Y == X \cup UNION {CallsIn(DoneTree(st, x)) : x \in {x \in X : IsDone(st, x)}} IN IF Y = X THEN X ELSE Reach(st, Y)
Exists(st, x) == IsDone(st, "") /\ FuncAt(Tops(st), x) # 0
Missing(st, X) == {x \in Reach(st, X) : Exists(st, x) /\ ~IsDone(st, x)}
Push(st, x) == [st EXCEPT !.stack = Append(@, [u |-> x, t |-> Tops(st)[FuncAt(Tops(st), x)]])]
Wanted(p, st) == IF ~IsDone(st, "") THEN {} ELSE Missing(st, {"main"}) \cup
  {x \in {p.cls[i] : i \in UNION {ObjsIn(st.done[j].t) : j \in DOMAIN st.done}} : Exists(st, x) /\ ~IsDone(st, x)}
Finished(p, st) == st.err \/ (st.stack = <<>> /\ Wanted(p, st) = {})
Step(p, st) ==
  IF st.stack = <<>> THEN {Push(st, x) : x \in Wanted(p, st)}
  ELSE LET l == Len(st.stack) f == st.stack[l] r == Redex(f.t, TRUE) IN
    IF r = <<>> THEN {[st EXCEPT !.stack = SubSeq(@, 1, l - 1), !.done = Append(@, f)]}
    ELSE LET t == Sub(f.t, r[1]) IN
      IF t.k = "err" THEN {[st EXCEPT !.err = TRUE]}
      ELSE IF t.k # "pre" THEN {[st EXCEPT !.stack[l].t = Rewrite(f.t, r[1], Expand(p, t))]}
      ELSE LET d == UNION {CallsIn(t.c[i]) : i \in DOMAIN t.c} IN
        IF Missing(st, d) # {} THEN {Push(st, x) : x \in Missing(st, d)}
        ELSE IF BadPre(p, SelectSeq(DoneFuncs(st), LAMBDA g : g.s \in Reach(st, d)), t.c) THEN {[st EXCEPT !.err = TRUE]}
        ELSE LET q == RunPre(DoneFuncs(st), t.c, 0, d) IN
             {[st EXCEPT !.stack[l].t = Rewrite(f.t, r[1], q.l), !.err = q.err,
                         !.log = @ \o [i \in DOMAIN q.log |-> [u |-> f.u, e |-> q.log[i]]]]}
UnitLog(st, x) == LET q == SelectSeq(st.log, LAMBDA r : r.u = x) IN [i \in DOMAIN q |-> q[i].e]

\* what the machine did is what the program means
Agrees(p, st) ==
  LET m == Meaning(p) IN
  st.err => ~m.ok
Conforms(p, st) ==
  LET m == Meaning(p) fs == DoneFuncs(st) IN
  /\ Agrees(p, st)
  /\ (~st.err /\ m.ok) =>
       /\ {m.logs[i].u : i \in DOMAIN m.logs} = {st.done[i].u : i \in DOMAIN st.done}
       /\ \A i \in DOMAIN m.logs : UnitLog(st, m.logs[i].u) = m.logs[i].log
       /\ m.out = Exec(fs, [env |-> <<<<>>>>, out |-> <<>>], fs[FuncAt(fs, "main")].c[1].c).out
\* nothing is processed twice, and what a pre calls is processed before it runs
Once(st) == \A i, j \in DOMAIN st.done : i # j => st.done[i].u # st.done[j].u
Ready(st) == \A i, j \in DOMAIN st.log : st.log[j].u \in st.log[i].e.d => j < i
=============================================================================
