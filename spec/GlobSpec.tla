------------------------------ MODULE GlobSpec ------------------------------
(* Session model of global variables: a source file is a sequence of items (module statements, root statements,
   preprocess blocks); executing an item first initialises the globals its code can reach and then runs it.
   A program is [vars, funcs, items]; a body is a sequence of atoms
     <<1, v>> use variable v     <<2, f>> call function f     <<3, v>> increment v     <<4, k>> a mark
     <<7, f>> a call of f and <<8, v>> a use of v that are never reached at run time
   vars[v] = [prio, init (body of its initialiser)].
   An event is <<1, v, value>>, <<3, v, value>>, <<4, k, 0>> or <<5, v, 0>> (v initialised). *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt

\* ---- reachability (bodies are named <<"f", i>>, <<"v", i>> for an initialiser, <<"e">> for the entry itself)
BodyOf(P, E, b) == CASE b[1] = "f" -> P.funcs[b[2]] [] b[1] = "v" -> P.vars[b[2]].init [] OTHER -> E
DirectVars(body) == {body[i][2] : i \in {j \in DOMAIN body : body[j][1] \in {1, 3, 8}}}
DirectFuncs(body) == {body[i][2] : i \in {j \in DOMAIN body : body[j][1] \in {2, 7}}}
RECURSIVE Close(_, _, _)
Close(P, E, B) ==   \* all bodies reachable from the bodies in B, initialisers included
  LET next == B \cup UNION {{<<"f", f>> : f \in DirectFuncs(BodyOf(P, E, b))} \cup
                            {<<"v", v>> : v \in DirectVars(BodyOf(P, E, b))} : b \in B}
  IN IF next = B THEN B ELSE Close(P, E, next)
Bodies(P, E) == Close(P, E, {<<"e", 0>>})
VarsOf(B) == {b[2] : b \in {x \in B : x[1] = "v"}}
Reach(P, E) == VarsOf(Bodies(P, E))
DepsOf(P, v) == VarsOf(Close(P, <<>>, {<<"f", f>> : f \in DirectFuncs(P.vars[v].init)} \cup
                                      {<<"v", w>> : w \in DirectVars(P.vars[v].init)}))
Circular(P, E, inited) == \E v \in Reach(P, E) \ inited : v \in DepsOf(P, v)

\* ---- entries: what is executed together.  Module statements wait for the next root statement; a preprocess
\* block runs on its own as soon as it is met.
RECURSIVE Entries(_, _)
Entries(items, pend) ==
  IF items = <<>> THEN <<>>
  ELSE LET i == Head(items) IN
       CASE i.kind = "mod" -> Entries(Tail(items), pend \o i.body)
         [] i.kind = "pre" -> <<i.body>> \o (IF pend = <<>> THEN <<>> ELSE <<pend>>) \o Entries(Tail(items), <<>>)
         [] OTHER -> <<pend \o i.body>> \o Entries(Tail(items), <<>>)

\* ---- the session
Start == [e |-> 0, phase |-> "idle", need |-> {}, inited |-> {}, cur |-> 0, stack |-> <<>>, vals |-> <<>>, dead |-> FALSE]
InitState(P) == [Start EXCEPT !.vals = [v \in DOMAIN P.vars |-> -1]]
E(P) == Entries(P.items, <<>>)

\* v may be initialised now: everything its initialiser reaches is initialised, and no @priority variable that
\* is needed by the same body still waits, if that body is the only one that needs v
MayInit(P, s, v) ==
  /\ DepsOf(P, v) \subseteq s.inited
  /\ P.vars[v].prio \/ LET ent == E(P)[s.e]
                           users == {b \in Bodies(P, ent) : v \in DirectVars(BodyOf(P, ent, b))}
                       IN Cardinality(users) = 1 =>
                            LET u == CHOOSE b \in users : TRUE
                            IN \A p \in DirectVars(BodyOf(P, ent, u)) : P.vars[p].prio => p \in s.inited

Push(s, body) == IF body = <<>> THEN s ELSE [s EXCEPT !.stack = <<body>> \o @]
Pop(st) == IF st = <<>> THEN <<>> ELSE IF Tail(st[1]) = <<>> THEN Tail(st) ELSE <<Tail(st[1])>> \o Tail(st)

\* silent moves; deterministic except for the choice of the variable to initialise next
Silent(P, s) ==
  IF s.dead THEN {}
  ELSE IF s.stack # <<>> THEN
    IF s.stack[1][1][1] = 2
    THEN {Push([s EXCEPT !.stack = Pop(@)], P.funcs[s.stack[1][1][2]])}
    ELSE IF s.stack[1][1][1] \in {7, 8} THEN {[s EXCEPT !.stack = Pop(@)]}
    ELSE {}
  ELSE CASE s.phase = "idle" /\ s.e < Len(E(P)) ->
              LET ent == E(P)[s.e + 1] IN
              IF Circular(P, ent, s.inited) THEN {[s EXCEPT !.dead = TRUE]}
              ELSE {[s EXCEPT !.e = @ + 1, !.phase = "init", !.need = Reach(P, ent) \ s.inited]}
         [] s.phase = "init" /\ s.cur = 0 /\ s.need # {} ->
              {Push([s EXCEPT !.cur = v], P.vars[v].init) : v \in {w \in s.need : MayInit(P, s, w)}}
         [] s.phase = "init" /\ s.cur = 0 /\ s.need = {} ->
              {Push([s EXCEPT !.phase = "run"], E(P)[s.e])}
         [] s.phase = "run" -> {[s EXCEPT !.phase = "idle"]}
         [] OTHER -> {}

\* moves that print an event: <<event, next state>> or none
Visible(P, s) ==
  IF s.dead THEN <<>>
  ELSE IF s.stack # <<>> THEN
    LET a == s.stack[1][1]
        t == [s EXCEPT !.stack = Pop(@)]
    IN CASE a[1] = 1 -> <<<<1, a[2], s.vals[a[2]]>>, t>>
         [] a[1] = 3 -> <<<<3, a[2], s.vals[a[2]] + 1>>, [t EXCEPT !.vals[a[2]] = @ + 1]>>
         [] a[1] = 4 -> <<<<4, a[2], 0>>, t>>
         [] OTHER -> <<>>
  ELSE IF s.phase = "init" /\ s.cur # 0 THEN
    <<<<5, s.cur, 0>>, [s EXCEPT !.inited = @ \cup {s.cur}, !.need = @ \ {s.cur}, !.vals[s.cur] = 100 * s.cur, !.cur = 0]>>
  ELSE <<>>
Finished(P, s) == s.dead \/ (s.phase = "idle" /\ s.stack = <<>> /\ s.e = Len(E(P)))

\* ---- the property, as invariants of every state
UseAfterInit(s) == s.stack # <<>> /\ s.stack[1][1][1] \in {1, 3} => s.stack[1][1][2] \in s.inited
InitOnce(s) == s.cur # 0 => s.cur \notin s.inited
Live(P, s) == ~Finished(P, s) => Silent(P, s) # {} \/ Visible(P, s) # <<>>
=============================================================================
