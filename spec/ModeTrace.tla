----------------------------- MODULE ModeTrace -----------------------------
(* One program run in several ways: in place by the JIT, in a preprocess block, or built ahead of time.  The behaviour is
   that of GlobSpec whatever the way; a built program moreover ends the life of its global objects when it exits: each
   once, after everything else (the language leaves their order open). *)
EXTENDS GlobSpec, Json
Batch == JsonDeserialize("batch.json").batch      \* [prog, mode, objs (variables with a terminate handler), events]
VARIABLES h, k, s, left, exiting
vars == <<h, k, s, left, exiting>>
P == Batch[h].prog
Built == Batch[h].mode = "exe"
Objs == {Batch[h].objs[i] : i \in DOMAIN Batch[h].objs}
Init == /\ h \in DOMAIN Batch /\ k = 0 /\ s = InitState(Batch[h].prog)
        /\ left = {} /\ exiting = FALSE
Quiet == s' \in Silent(P, s) /\ UNCHANGED <<h, k, left, exiting>>
Show(e) == k < Len(Batch[h].events) /\ e = Batch[h].events[k + 1] /\ k' = k + 1
Shown == LET m == Visible(P, s) IN
         /\ m # <<>>
         /\ Show(m[1])
         /\ s' = m[2]
         /\ UNCHANGED <<h, left, exiting>>
Exit == /\ Built /\ ~exiting /\ ~s.dead /\ Finished(P, s)
        /\ exiting' = TRUE
        /\ left' = s.inited \cap Objs
        /\ UNCHANGED <<h, k, s>>
Terminate == /\ exiting
             /\ \E v \in left : Show(<<6, v, 0>>) /\ left' = left \ {v}
             /\ UNCHANGED <<h, s, exiting>>
Next == Quiet \/ Shown \/ Exit \/ Terminate
Spec == Init /\ [][Next]_vars
Done == k = Len(Batch[h].events) /\ Finished(P, s) /\ (Built => exiting /\ left = {})
Report == Done => PrintT(<<"@D", h>>)

InvUse == UseAfterInit(s)
InvOnce == InitOnce(s)
\* the lives of the global objects end after everything that uses them
InvAfter == exiting => Finished(P, s)
=============================================================================
