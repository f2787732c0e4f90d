------------------------------ MODULE TplSpec ------------------------------
(* Templates.  units[u] = [kind |-> "class" | "func" | "meth", owner |-> class unit of a "meth" (else 0),
     kinds |-> seq of parameter kinds, defs |-> seq of default expressions ([e |-> "none"] if none),
     body |-> seq of [k |-> "bump"] | [k |-> "show"] | [k |-> "call", x |-> expression denoting an instance]]
   expressions: [e |-> "par", n]   the n-th parameter in scope, those of the owner first
                [e |-> "const", c] a type, integer, string, function or module by name
                [e |-> "alias", n] what aliases[n] (an expression without parameters) denotes
                [e |-> "inst", u, o, a]  the instance of unit u (inside instance o of its owner) with arguments a
   A value is [c |-> name, a |-> seq of values]; that of an instance lists its owner, if any, and all its arguments. *)
EXTENDS Integers, Sequences, FiniteSets, TLC

RECURSIVE Val(_, _, _)
Args(p, env, u, a) == [i \in DOMAIN p.units[u].kinds |-> IF i <= Len(a) THEN Val(p, env, a[i]) ELSE Val(p, <<>>, p.units[u].defs[i])]
Val(p, env, x) ==
  CASE x.e = "par" -> env[x.n]
    [] x.e = "const" -> [c |-> x.c, u |-> 0, a |-> <<>>]
    [] x.e = "alias" -> Val(p, <<>>, p.aliases[x.n])
    [] x.e = "inst" -> [c |-> "", u |-> x.u,
         a |-> (IF p.units[x.u].owner = 0 THEN <<>> ELSE <<Val(p, env, x.o)>>) \o Args(p, env, x.u, x.a)]
\* the parameters in scope in an instance
Env(p, v) == IF p.units[v.u].owner = 0 THEN v.a ELSE v.a[1].a \o Tail(v.a)

-----------------------------------------------------------------------------
\* The machine: a table of instances made on demand, each with its own state; frames run their bodies.
Start == [i |-> 1, table |-> <<>>, n |-> <<>>, stack |-> <<>>, log |-> <<>>]
Done(p, st) == st.i > Len(p.items) /\ st.stack = <<>>
Has(st, v) == \E k \in DOMAIN st.table : st.table[k] = v
At(st, v) == CHOOSE k \in DOMAIN st.table : st.table[k] = v
\* enter instance v
Enter(st, v) == LET s == IF Has(st, v) THEN st ELSE [st EXCEPT !.table = Append(@, v), !.n = Append(@, 0)] IN
   [s EXCEPT !.stack = Append(@, [t |-> At(s, v), pc |-> 1])]
Step(p, st) ==
  IF st.stack = <<>> THEN
    LET x == p.items[st.i] IN
    IF x.k = "call" THEN Enter([st EXCEPT !.i = @ + 1], Val(p, <<>>, x.x)) ELSE [st EXCEPT !.i = @ + 1]
  ELSE LET l == Len(st.stack) f == st.stack[l] v == st.table[f.t] body == p.units[v.u].body
           next == [st EXCEPT !.stack[l].pc = @ + 1] IN
    IF f.pc > Len(body) THEN [st EXCEPT !.stack = SubSeq(@, 1, l - 1)]
    ELSE LET x == body[f.pc] IN
      CASE x.k = "bump" -> [next EXCEPT !.n[f.t] = @ + 1, !.log = Append(@, [k |-> "bump", v |-> v, n |-> 0])]
        [] x.k = "show" -> [next EXCEPT !.log = Append(@, [k |-> "show", v |-> v, n |-> st.n[f.t]])]
        [] x.k = "call" -> Enter(next, Val(p, Env(p, v), x.x))
Compat(p) == \A i \in DOMAIN p.items : p.items[i].k = "same" => Val(p, <<>>, p.items[i].x) = Val(p, <<>>, p.items[i].y)
Shows(st) == SelectSeq(st.log, LAMBDA e : e.k = "show")
Answer(p, st) == [ok |-> Compat(p), ev |-> Shows(st)]

-----------------------------------------------------------------------------
OneInstance(st) == \A i, j \in DOMAIN st.table : i # j => st.table[i] # st.table[j]
\* what an instance shows is what was done under any spelling of its arguments, and nothing else
OwnState(st) == \A i \in DOMAIN st.log : st.log[i].k = "show" =>
   st.log[i].n = Cardinality({j \in 1..(i - 1) : st.log[j].k = "bump" /\ st.log[j].v = st.log[i].v})
RECURSIVE Closed(_, _)
Closed(p, v) == (v.u = 0 => v.a = <<>>) /\
   (v.u # 0 => /\ Len(v.a) = Len(p.units[v.u].kinds) + (IF p.units[v.u].owner = 0 THEN 0 ELSE 1)
               /\ \A i \in DOMAIN v.a : Closed(p, v.a[i]))
AllClosed(p, st) == \A i \in DOMAIN st.table : Closed(p, st.table[i])
=============================================================================
