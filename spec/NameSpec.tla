----------------------------- MODULE NameSpec -----------------------------
(* Name resolution.  A program is a tree of scopes with definitions and use statements, and one query.
     scopes[s] = [kind, parent]          kind "mod", "cls", "fn" (parameters), "blk" (function body or inner block);
                                         scope 1 is the outermost, parents have smaller numbers, parent 0 = none
     defs[d]   = [scope, name, kind, arg, path]
                   kind "var"    a variable; in a block arg = 1 means it is defined after the place of the query
                        "param"  a function parameter
                        "shared" a @shared variable of a block or class
                        "member" a non-shared class member
                        "fun"    a function of arg parameters
                        "cls"    a class with a size that identifies it (no scope of its own)
                        "in"     the scope number arg (a module or class defined here)
                        "alias"  an alias of path (sequence of names)
     uses[u]   = [scope, path]
     query     = [scope, form, path, arity]    form "val", "call" (with arity arguments), "type"
   The machine walks outward from the query's scope; the declarative meaning is Meaning, which every final state
   must equal (Sound). *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Named(P, s, n) == {d \in DOMAIN P.defs : P.defs[d].scope = s /\ P.defs[d].name = n}
IsFn(P, s) == P.scopes[s].kind = "fn"
Local(P, d) == \/ P.defs[d].kind = "param"
               \/ P.defs[d].kind = "var" /\ P.scopes[P.defs[d].scope].kind = "blk"

RECURSIVE Path(_, _, _, _), Inside(_, _, _, _), Direct(_, _, _, _), Lookup(_, _, _, _), Plain(_, _, _)
\* where a type is wanted only classes count: t says whether the name is in such a place
Fit(P, ds, t) == IF t THEN {d \in ds : P.defs[d].kind = "cls"} ELSE ds
\* the definitions named n in scope s itself, aliases replaced by what they stand for
Direct(P, s, n, t) ==
  UNION {IF P.defs[d].kind = "alias" THEN Path(P, s, P.defs[d].path, t) ELSE {d} : d \in Named(P, s, n)}
\* a path, its first name looked up from s outward, the others inside
Path(P, s, path, t) == Inside(P, Lookup(P, s, path[1], t /\ Len(path) = 1), Tail(path), t)
Inside(P, ds, path, t) ==
  IF path = <<>> THEN ds
  ELSE Inside(P, UNION {Direct(P, P.defs[d].arg, path[1], t /\ Len(path) = 1) : d \in {x \in ds : P.defs[x].kind = "in"}},
              Tail(path), t)
\* use targets are found without the help of use statements
Plain(P, s, n) ==
  IF s = 0 THEN {} ELSE LET d == Direct(P, s, n, FALSE) IN IF d # {} THEN d ELSE Plain(P, P.scopes[s].parent, n)
PathPlain(P, s, path) == Inside(P, Plain(P, s, path[1]), Tail(path), FALSE)
\* what the use statements of s offer
Used(P, s, n, t) ==
  UNION {UNION {Direct(P, P.defs[d].arg, n, t) : d \in {x \in PathPlain(P, s, P.uses[u].path) : P.defs[x].kind = "in"}} :
         u \in {v \in DOMAIN P.uses : P.uses[v].scope = s}}
Level(P, s, n, t) == LET d == Fit(P, Direct(P, s, n, t), t) IN IF d # {} THEN d ELSE Fit(P, Used(P, s, n, t), t)
Lookup(P, s, n, t) ==
  IF s = 0 THEN {} ELSE LET l == Level(P, s, n, t) IN IF l # {} THEN l ELSE Lookup(P, P.scopes[s].parent, n, t)
TypeQ(P) == P.query.form = "type"
LevelF(P, s, n) == Level(P, s, n, TypeQ(P) /\ Len(P.query.path) = 1)
\* programs outside: an alias that stands for nothing is a mistake whose treatment is left open
Outside(P) == \E d \in DOMAIN P.defs :
  P.defs[d].kind = "alias" /\ Path(P, P.defs[d].scope, P.defs[d].path, FALSE) = {}

\* a local variable of another function than the one the query is in
RECURSIVE FnOf(_, _)
FnOf(P, s) == IF s = 0 \/ IsFn(P, s) THEN s ELSE FnOf(P, P.scopes[s].parent)
Foreign(P, d) == Local(P, d) /\ FnOf(P, P.defs[d].scope) # FnOf(P, P.query.scope)

\* the meaning of a set of definitions found at one level
Err(why) == [kind |-> "error", d |-> {}, why |-> why]
Ok(d) == [kind |-> "def", d |-> {d}, why |-> ""]
Judge(P, R) ==
  LET q == P.query
      Calls == {d \in R : P.defs[d].kind = "fun" /\ P.defs[d].arg = q.arity}
  IN IF R = {} THEN Err("unknown")
     ELSE IF q.form # "type" /\ \E d \in R : Foreign(P, d) THEN Err("otherfunc")
     ELSE IF q.form = "call" THEN
        (IF \E d \in R : P.defs[d].kind = "cls" THEN [kind |-> "outside", d |-> {}, why |-> "a class is constructed"]
         ELSE IF Cardinality(Calls) = 1 THEN Ok(CHOOSE d \in Calls : TRUE)
         ELSE IF Calls = {} THEN Err("nocallee") ELSE Err("ambiguous"))
     ELSE IF q.form = "type" /\ \E d \in R : P.defs[d].kind = "cls" THEN   \* any of them when there are several
          [kind |-> "def", d |-> {d \in R : P.defs[d].kind = "cls"}, why |-> ""]
     ELSE IF Cardinality(R) > 1 THEN Err("ambiguous")
     ELSE LET d == CHOOSE x \in R : TRUE
              k == P.defs[d].kind
          IN CASE q.form = "type" -> Err("kind")
               [] k = "member" -> Err("member")
               [] k \in {"var", "param", "shared"} ->
                    IF k = "var" /\ Local(P, d) /\ P.defs[d].arg = 1 THEN Err("early") ELSE Ok(d)
               [] OTHER -> Err("kind")

\* ---- the machine
Start(P) == [cur |-> P.query.scope, crossed |-> FALSE, done |-> FALSE, res |-> Err("")]
Step(P, st) ==
  IF st.cur = 0 THEN [st EXCEPT !.done = TRUE, !.res = Err("unknown")]
  ELSE LET l == LevelF(P, st.cur, P.query.path[1])
       IN IF l # {} THEN [st EXCEPT !.done = TRUE,
                          !.res = LET r == Inside(P, l, Tail(P.query.path), TypeQ(P))
                                  IN Judge(P, r)]
          ELSE [st EXCEPT !.cur = P.scopes[st.cur].parent, !.crossed = @ \/ IsFn(P, st.cur)]

\* ---- declarative: the innermost level of the chain at which the name means anything decides
RECURSIVE Chain(_, _)
Chain(P, s) == IF s = 0 THEN <<>> ELSE <<s>> \o Chain(P, P.scopes[s].parent)
Meaning(P) ==
  LET ch == Chain(P, P.query.scope)
      hits == {i \in DOMAIN ch : LevelF(P, ch[i], P.query.path[1]) # {}}
  IN IF hits = {} THEN Err("unknown")
     ELSE LET i == CHOOSE x \in hits : \A y \in hits : x <= y
          IN Judge(P, Inside(P, LevelF(P, ch[i], P.query.path[1]), Tail(P.query.path), TypeQ(P)))
Sound(P, st) == st.done => st.res = Meaning(P)
\* a plain name reaches a local variable of another function only by walking out of a function
Stays(P, st) == (st.done /\ ~st.crossed /\ st.res.why = "otherfunc") =>
                \E d \in Named(P, st.cur, P.query.path[1]) : P.defs[d].kind = "alias"
\* never out of scope: a definition found by a plain name is visible in the chain or through a use of the chain
Visible(P, st) == (st.done /\ st.res.kind = "def" /\ Len(P.query.path) = 1) =>
  \E i \in DOMAIN Chain(P, P.query.scope) : st.res.d \subseteq LevelF(P, Chain(P, P.query.scope)[i], P.query.path[1])
\* a directly defined name is never shadowed by a use of the same scope
DirectFirst(P, st) == (st.done /\ st.res.kind = "def" /\ Len(P.query.path) = 1 /\ st.cur # 0) =>
  LET d == Fit(P, Direct(P, st.cur, P.query.path[1], TypeQ(P)), TypeQ(P)) IN (d # {} => st.res.d \subseteq d)
=============================================================================
