------------------------------- MODULE CallRun -------------------------------
(* Programs of bodies and statements: all sequences of up to MaxLen statements of a pool, or given programs. *)
EXTENDS CallSpec, Json

CONSTANTS Batched, MaxLen
Input == JsonDeserialize("batch.json").batch      \* [bodies, state, stmts]: one program, or (not Batched) its pool

VARIABLES prog, todo, hist, st, ended
vars == <<prog, todo, hist, st, ended>>

Init == \E i \in 1..Len(Input) :
          /\ prog = i
          /\ todo = IF Batched THEN Input[i].stmts ELSE <<>>
          /\ st = Input[i].state /\ hist = <<>> /\ ended = FALSE
Do(q) == /\ st' = Step(Input[prog].bodies, q, st)
         /\ hist' = Append(hist, q)
Finish == /\ PrintT("@X " \o ToJson([p |-> [bodies |-> Input[prog].bodies, state |-> Input[prog].state, stmts |-> hist],
                                     x |-> [trace |-> st.trace, cells |-> st.cells]]))
          /\ ended' = TRUE /\ UNCHANGED <<prog, todo, hist, st>>
Next == \/ Batched /\ todo # <<>> /\ Do(Head(todo)) /\ todo' = Tail(todo) /\ UNCHANGED <<prog, ended>>
        \/ ~Batched /\ ~ended /\ Len(hist) < MaxLen /\ \E i \in 1..Len(Input[prog].stmts) : Do(Input[prog].stmts[i]) /\ UNCHANGED <<prog, todo, ended>>
        \/ ~ended /\ todo = <<>> /\ hist # <<>> /\ Finish
Spec == Init /\ [][Next]_vars

(* no call leaves a cell behind; pointers point at bodies and objects *)
InvCells == Len(st.cells) = Len(Input[prog].state.cells)
InvSlots == /\ \A i \in 1..Len(st.slots) : st.slots[i] \in 1..Len(Input[prog].bodies)
            /\ \A i \in 1..Len(st.qs) : st.qs[i] \in 1..(Len(st.cells) - Objs)
(* what a body says on entry and on leaving is nested: a stack *)
RECURSIVE Depth(_, _)
Depth(t, stack) == IF t = <<>> THEN stack = <<>>
                   ELSE LET h == Head(t) IN
                        IF h.f = 0 THEN Depth(Tail(t), stack)
                        ELSE IF h.at = 1 THEN Depth(Tail(t), Append(stack, h.f))
                        ELSE stack # <<>> /\ stack[Len(stack)] = h.f /\ Depth(Tail(t), SubSeq(stack, 1, Len(stack) - 1))
InvNested == Depth(st.trace, <<>>)
=============================================================================
