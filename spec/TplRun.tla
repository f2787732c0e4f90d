------------------------------ MODULE TplRun ------------------------------
(* The space: a class template C[T, i = 3] and a function template F[T, i] that uses C[T], C[C[T], i] or C[K1, i]; every
   sequence of three uses from a pool of spellings. *)
EXTENDS TplSpec, Json
CONSTANTS Mode
VARIABLES prog, st
Const(c) == [e |-> "const", c |-> c, n |-> 0, u |-> 0, o |-> 0, a |-> <<>>]
Par(n) == [e |-> "par", c |-> "", n |-> n, u |-> 0, o |-> 0, a |-> <<>>]
Ali(n) == [e |-> "alias", c |-> "", n |-> n, u |-> 0, o |-> 0, a |-> <<>>]
Inst(u, a) == [e |-> "inst", c |-> "", n |-> 0, u |-> u, o |-> 0, a |-> a]
None == [e |-> "none", c |-> "", n |-> 0, u |-> 0, o |-> 0, a |-> <<>>]
K(k) == [k |-> k, x |-> None, y |-> None]
Call(x) == [k |-> "call", x |-> x, y |-> None]
Units(x) == <<[kind |-> "class", owner |-> 0, kinds |-> <<"type", "int">>, defs |-> <<None, Const("3")>>, body |-> <<K("bump"), K("show")>>],
              [kind |-> "func", owner |-> 0, kinds |-> <<"type", "int">>, defs |-> <<None, None>>, body |-> <<K("bump"), Call(x), K("show")>>]>>
Inner == {Inst(1, <<Par(1)>>), Inst(1, <<Inst(1, <<Par(1)>>), Par(2)>>), Inst(1, <<Const("K1"), Par(2)>>)}
Pool == {Inst(1, <<Const("K1")>>), Inst(1, <<Const("K1"), Const("3")>>), Inst(1, <<Const("K2"), Ali(2)>>), Ali(1), Inst(1, <<Const("K1"), Const("4")>>),
         Inst(1, <<Ali(1)>>), Inst(1, <<Inst(1, <<Const("K1"), Ali(2)>>), Const("3")>>), Inst(2, <<Const("K1"), Const("3")>>),
         Inst(2, <<Const("K1"), Const("4")>>), Inst(2, <<Ali(1), Ali(2)>>)}
Batch == JsonDeserialize("batch.json").batch
Gen == \E x \in Inner, a \in Pool, b \in Pool, c \in Pool :
   prog = [units |-> Units(x), aliases |-> <<Inst(1, <<Const("K1")>>), Const("3")>>, items |-> <<Call(a), Call(b), Call(c)>>]
Init == /\ IF Mode = "gen" THEN Gen ELSE prog \in {Batch[i] : i \in DOMAIN Batch}
        /\ st = Start
Next == ~Done(prog, st) /\ st' = Step(prog, st) /\ UNCHANGED prog
Spec == Init /\ [][Next]_<<prog, st>>
InvOneInstance == OneInstance(st)
InvOwnState == Done(prog, st) => OwnState(st)
InvClosed == AllClosed(prog, st)
Report == Done(prog, st) => PrintT("@X " \o ToJson([p |-> prog, x |-> Answer(prog, st)]))
=============================================================================
