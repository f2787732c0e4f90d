------------------------------ MODULE MacRun ------------------------------
(* The space: two macros with every pair of bodies from a pool that uses parameters in several places and each other, and one
   use of the first with every pair of arguments from a pool. *)
EXTENDS MacSpec, Json
CONSTANTS Mode
VARIABLES prog, st
Id(x) == Nd("id", x, 0, <<>>)
Tp(k, a, n, z) == [Nd(k, a, 0, <<>>) EXCEPT !.n = n, !.z = z]
Num1(v) == Nd("num", "", v, <<>>)
Two(k, a, b) == Nd(k, "", 0, <<a, b>>)
Use(m, a) == Nd("use", m, 0, a)
Str(x) == Nd("str", x, 0, <<>>)
Out(a, b) == Nd("out", "", 0, <<a, b>>)
Blk(l) == Nd("blk", "", 0, l)
Pre(l) == Nd("pre", "", 0, l)
Mark(a, b) == Nd("mark", "", 0, <<a, b>>)
Insert(t, np) == Nd("ins", "", np, <<t>>)
Func(x, ps, b, r) == Nd("func", x, 0, ps \o <<Blk(b), r>>)
Def(x, v) == Nd("def", x, 0, <<v>>)
A == Id("a")
B == Id("b")
EPool(m) == {Two("sub", A, B), Two("mul", B, A), Use(m, <<B, A>>), Use(m, <<Two("add", A, Num1(1)), B>>), Two("sub", Id("x"), Use(m, <<A, Id("x")>>)),
             Tp("id", "", "a", "1"), Tp("id", "v", "b", ""), Two("add", A, Two("mul", A, B)), Pre(<<Mark(Tp("str", "", "a", "-"), Num1(3)), Insert(Two("sub", B, A), 0)>>)}
Macs == {<<x, y>> : x \in EPool("m2"), y \in EPool("m3")}
APool == {Num1(7), Id("x"), Id("y"), Two("sub", Id("x"), Id("y")), Use("m2", <<Id("y"), Num1(2)>>), Use("m3", <<Id("x"), Id("x")>>)}
Gen == \E w \in Macs, a \in APool, b \in APool :
   prog = [cls |-> <<>>, macs |-> <<[name |-> "m1", params |-> <<"a", "b">>, cls |-> "", body |-> w[1]],
                          [name |-> "m2", params |-> <<"a", "b">>, cls |-> "", body |-> w[2]],
                          [name |-> "m3", params |-> <<"b", "a">>, cls |-> "", body |-> Two("sub", A, B)]>>,
           tops |-> <<Func("main", <<>>, <<Def("x", Num1(11)), Def("y", Num1(5)), Def("x1", Num1(20)), Def("y1", Num1(30)), Def("vx", Num1(40)), Def("vy", Num1(50)),
                                           Out(Str("r"), Use("m1", <<a, b>>)), Out(Str("s"), Two("sub", Use("m2", <<a, b>>), Use("m2", <<b, a>>)))>>, Num1(0))>>]
Batch == JsonDeserialize("batch.json").batch
Init == /\ IF Mode = "gen" THEN Gen ELSE prog \in {Batch[i] : i \in DOMAIN Batch}
        /\ st = Start(prog)
Next == ~Finished(prog, st) /\ st' \in Step(prog, st) /\ UNCHANGED prog
Spec == Init /\ [][Next]_<<prog, st>>
InvOnce == Once(st)
InvReady == Ready(st)
InvConforms == Finished(prog, st) => Conforms(prog, st)
Report == Finished(prog, st) => PrintT("@X " \o ToJson([p |-> prog, x |-> Meaning(prog)]))
=============================================================================
