------------------------------ MODULE GlobGen ------------------------------
(* The program space explored exhaustively: NV variables whose initialisers use at most one thing each, one
   function, two items.  Every program is also run in the model, where the properties are invariants. *)
EXTENDS GlobSpec, Json
CONSTANTS NV
VARIABLES prog, s
Atom == {<<>>} \cup {<< <<1, v>> >> : v \in 1..NV} \cup {<< <<2, 1>> >>}
FBody == {<< <<1, v>> >> : v \in 1..NV} \cup {<< <<1, v>>, <<1, w>> >> : v \in 1..NV, w \in 1..NV}
Prios == {{}} \cup {{v} : v \in 1..NV}
Item1 == {<< <<1, v>>, <<1, w>> >> : v \in 1..NV, w \in 1..NV} \cup {<< <<2, 1>> >>, << <<3, 1>>, <<2, 1>> >>}
Kinds == {"stmt", "pre", "mod"}
FinalItem == [kind |-> "stmt", body |-> [v \in 1..NV |-> <<1, v>>] \o << <<2, 1>>, <<3, 1>> >>]
Space == {[vars |-> [v \in 1..NV |-> [prio |-> v \in pr, init |-> ini[v]]], funcs |-> <<fb>>,
           items |-> << [kind |-> kd, body |-> it], FinalItem >>] :
          ini \in [1..NV -> Atom], fb \in FBody, pr \in Prios, it \in Item1, kd \in Kinds}
\* a function that reaches itself through an initialiser is a different error; keep the first function simple
Init == /\ prog \in Space
        /\ s = InitState(prog)
        /\ PrintT("@P " \o ToJson(prog))
Next == /\ \/ s' \in Silent(prog, s)
           \/ (Visible(prog, s) # <<>> /\ s' = Visible(prog, s)[2])
        /\ UNCHANGED prog
Spec == Init /\ [][Next]_<<prog, s>>
InvUse == UseAfterInit(s)
InvOnce == InitOnce(s)
InvLive == Live(prog, s)
============================================================================
