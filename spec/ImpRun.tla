------------------------------ MODULE ImpRun ------------------------------
(* The space: main in directory A; x in A and in B, y in B, each there or not; every choice of what they import from a
   pool of spellings; the program is run in A or in B. *)
EXTENDS ImpSpec, Json
CONSTANTS Mode
VARIABLES prog, st
\* 1 root, 2 A, 3 B, 4 main, 5 A/x, 6 B/x, 7 B/y, 8 C (a link to B)
N(up, k, n, to) == [up |-> up, kind |-> k, name |-> n, to |-> to]
Gone(b, k) == IF b THEN k ELSE "txt"
Nodes(b5, b6, b7) == <<N(1, "dir", "", 0), N(1, "dir", "A", 0), N(1, "dir", "B", 0), N(2, "src", "main.E1", 0),
   N(2, Gone(b5, "src"), IF b5 THEN "x.E1" ELSE "x.no", 0), N(3, Gone(b6, "src"), IF b6 THEN "x.E2" ELSE "x.no", 0),
   N(3, Gone(b7, "src"), IF b7 THEN "y.E1" ELSE "y.no", 0), N(1, "link", "C", 3)>>
Rel(s) == [abs |-> FALSE, path |-> s]
Pool == {<<Rel(<<"x">>)>>, <<Rel(<<"y">>)>>, <<Rel(<<"..", "B", "x">>)>>, <<Rel(<<"..", "C", "..", "B", "y">>)>>,
         <<Rel(<<"y">>), Rel(<<"x">>)>>, <<[abs |-> TRUE, path |-> <<"C", "x.E2">>]>>}
Imp(id, a) == [k |-> "imp", id |-> id, f |-> 0, alts |-> a]
Mark(id) == [k |-> "mark", id |-> id, f |-> 0, alts |-> <<>>]
Use(id, f) == [k |-> "use", id |-> id, f |-> f, alts |-> <<>>]
Opt(id) == {<<>>} \cup {<<Imp(id, a)>> : a \in {<<Rel(<<"x">>)>>, <<Rel(<<"y">>)>>, <<Rel(<<"main">>), Rel(<<"..", "A", "main">>)>>}}
Gen == \E b5 \in BOOLEAN, b6 \in BOOLEAN, b7 \in BOOLEAN, a \in Pool, b \in Pool, c \in {2, 3} :
       \E o5 \in (IF b5 THEN Opt(51) ELSE {<<>>}), o6 \in (IF b6 THEN Opt(61) ELSE {<<>>}), o7 \in (IF b7 THEN Opt(71) ELSE {<<>>}) :
       prog = [nodes |-> Nodes(b5, b6, b7), main |-> 4, base |-> <<c>>,
               files |-> <<<<>>, <<>>, <<>>, <<Mark(40), Imp(41, a), Mark(42), Imp(43, b), Use(44, 6)>>,
                           <<Mark(50)>> \o o5 \o <<Mark(52)>>, <<Mark(60)>> \o o6 \o <<Mark(62)>>, <<Mark(70)>> \o o7 \o <<Mark(72)>>, <<>>>>]
Batch == JsonDeserialize("batch.json").batch
Init == /\ IF Mode = "gen" THEN Gen ELSE prog \in {Batch[i] : i \in DOMAIN Batch}
        /\ st = Start(prog)
Next == ~Done(st) /\ st' = Step(prog, st) /\ UNCHANGED prog
Spec == Init /\ [][Next]_<<prog, st>>
InvOnce == Once(st)
InvNoReentry == NoReentry(st) /\ OpenAreSeen(st)
InvWhole == Whole(prog, st)
InvMeans == Means(prog, st)
Report == Done(st) => PrintT("@X " \o ToJson([p |-> prog, x |-> st.ev]))
=============================================================================
