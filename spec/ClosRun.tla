------------------------------- MODULE ClosRun -------------------------------
(* Programs with closures: given ones, or all sequences of up to MaxLen statements of a pool after a beginning. *)
EXTENDS ClosSpec, FiniteSets, Json

CONSTANTS Batched, MaxLen
Input == JsonDeserialize("batch.json").batch      \* [vars, fns, clos, pool]: fns[1].stmts is the beginning

VARIABLES prog, pos, hist, x, ended
vars == <<prog, pos, hist, x, ended>>
P == Input[prog]

Init == \E i \in 1..Len(Input) :
          /\ prog = i /\ pos = 1 /\ hist = <<>> /\ ended = FALSE
          /\ x = [s |-> Start, env |-> <<>>, own |-> <<>>, r |-> 0, give |-> 0]
Do(q) == /\ x' = Exec(P, <<q>>, 1, x)
         /\ hist' = Append(hist, q)
Main == P.fns[1].stmts
End == /\ ~ended /\ pos > Len(Main) /\ hist # <<>> /\ ~x.s.bad
       /\ Batched \/ hist[Len(hist)].o \in {"call", "rel"}
       /\ LET s == KillAll(x.s, x.own, 1) IN
          PrintT("@X " \o ToJson([p |-> [vars |-> P.vars, fns |-> [P.fns EXCEPT ![1].stmts = hist], clos |-> P.clos], x |-> [trace |-> s.trace]]))
       /\ ended' = TRUE /\ UNCHANGED <<prog, pos, hist, x>>
Next == \/ ~x.s.bad /\ pos <= Len(Main) /\ Do(Main[pos]) /\ pos' = pos + 1 /\ UNCHANGED <<prog, ended>>
        \/ /\ ~Batched /\ ~x.s.bad /\ ~ended /\ pos > Len(Main) /\ Len(hist) < Len(Main) + MaxLen
           /\ \E i \in 1..Len(P.pool) : Do(P.pool[i]) /\ UNCHANGED <<prog, pos, ended>>
        \/ End
Spec == Init /\ [][Next]_vars

S == x.s
Holders(k, v) == Cardinality({c \in 1..Len(S.cells) : S.cells[c].k = k /\ S.cells[c].v = v})
(* a record or an object lives as long as something holds it and no longer *)
InvCounts == ~S.bad => /\ \A h \in 1..Len(S.heap) : S.heap[h].rc = Holders("clo", h)
                       /\ \A o \in 1..Len(S.objs) : S.objs[o].rc = Holders("srd", o)
(* what a living record captured by value is alive and is its own *)
Alive == {h \in 1..Len(S.heap) : S.heap[h].rc > 0}
InvOwn == ~S.bad => /\ \A h \in Alive : \A i \in 1..Len(S.heap[h].caps) : ~S.heap[h].caps[i].ref => S.cells[S.heap[h].caps[i].cell].k # "dead"
                    /\ \A h, g \in Alive : \A i \in 1..Len(S.heap[h].caps), j \in 1..Len(S.heap[g].caps) :
                         <<h, i>> # <<g, j>> /\ ~S.heap[h].caps[i].ref /\ ~S.heap[g].caps[j].ref => S.heap[h].caps[i].cell # S.heap[g].caps[j].cell
=============================================================================
