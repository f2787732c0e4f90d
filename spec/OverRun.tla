------------------------------ MODULE OverRun ------------------------------
(* The space: every argument against every one-parameter candidate, and every pair of one-parameter candidates. *)
EXTENDS OverSpec, Json
CONSTANTS Mode
VARIABLES prog, st
Values == {"I8", "I16", "I32", "I64", "W1", "W8", "W16", "W32", "W64", "F32", "F64", "P", "PI", "PA", "PB", "A", "B", "C", "D", "E", "G", "H", "K"}
Par(k, t) == [k |-> k, t |-> t, lo |-> 0, hi |-> 0]
Pars == {Par("v", t) : t \in Values \cup {"I0"}} \cup {Par("r", t) : t \in Values} \cup {Par("t", t) : t \in Values}
Few == {Par("v", t) : t \in {"I8", "I32", "I64", "W1", "W8", "W32", "F32", "F64", "P", "PI", "PA", "A", "B", "C"}}
  \cup {Par("r", t) : t \in {"I32", "W8", "F64", "PI", "PA", "P", "A", "B"}} \cup {Par("t", t) : t \in {"I32", "W8", "F64", "PB", "P", "A", "B"}}
Args == {[k |-> k, t |-> t] : k \in {"r", "v"}, t \in Values \cup {"I0"}} \cup {[k |-> "v", t |-> "N"]}
Prog(cs, as) == [scopes |-> <<[cands |-> cs, inj |-> <<>>, uses |-> <<>>]>>, args |-> as, form |-> "plain"]
Singles == {Prog(<< <<p>> >>, <<a>>) : p \in Pars, a \in Args}
Pairs == {Prog(<< <<p>>, <<q>> >>, <<a>>) : p \in Few, q \in Few, a \in Args}
Batch == JsonDeserialize("batch.json").batch
Init == /\ prog \in CASE Mode = "single" -> Singles [] Mode = "pair" -> {x \in Pairs : x.scopes[1].cands[1] # x.scopes[1].cands[2]}
                      [] OTHER -> {Batch[i] : i \in DOMAIN Batch}
        /\ st = Start(prog)
Next == ~st.done /\ st' \in Succ(prog, st) /\ UNCHANGED prog
Spec == Init /\ [][Next]_<<prog, st>>
InvOrderFree == OrderFree(prog, st)
InvNoBetter == NoBetter(prog, st)
Report == st.done => PrintT("@X " \o ToJson([p |-> prog, x |-> Answer(st)]))
=============================================================================
