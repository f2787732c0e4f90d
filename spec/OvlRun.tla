------------------------------- MODULE OvlRun -------------------------------
(* Histories of operations on three containers: every history up to a length from given beginnings, or given ones.
   Printed per history: after every operation its result and what every container shows. *)
EXTENDS OvlSpec, Json

CONSTANTS Batched, Depth, MapKeys
Input == JsonDeserialize("batch.json").batch      \* [kind, ops]

VARIABLES st, todo, hist, seen, left
vars == <<st, todo, hist, seen, left>>

Show(s) == [c \in Containers |-> IF c \in s.dead THEN <<>> ELSE
  LET v == View(s, c) IN [i \in 1..Len(v) |-> [k |-> IF s.kind = "map" THEN v[i].k ELSE "", v |-> v[i].v, inh |-> v[i].inh]]]

Init == \E i \in 1..Len(Input) :
  /\ st = Start(Input[i].kind) /\ todo = Input[i].ops /\ hist = <<>> /\ seen = <<>>
  /\ left = IF Batched THEN 0 ELSE Depth

Do(op) == LET r == Apply(st, op) IN
  /\ st' = r.st
  /\ hist' = Append(hist, op)
  /\ seen' = Append(seen, [r |-> r.r, s |-> Show(r.st)])

Given == todo # <<>> /\ Do(Head(todo)) /\ todo' = Tail(todo) /\ UNCHANGED left
Free == todo = <<>> /\ left > 0 /\ \E op \in Ops(st, MapKeys, Len(hist) + 1) : Allowed(op) /\ Do(op) /\ left' = left - 1 /\ UNCHANGED todo
End == todo = <<>> /\ left = 0 /\ left' = -1
       /\ PrintT("@X " \o ToJson([p |-> [kind |-> st.kind, ops |-> hist], x |-> seen]))
       /\ UNCHANGED <<st, todo, hist, seen>>
Next == Given \/ Free \/ End
Spec == Init /\ [][Next]_vars

InvTail == TailOK(st)
InvKeys == KeysOnce(st)
InvOverlay == Overlay(st)
=============================================================================
