----------------------------- MODULE GlobTrace -----------------------------
(* Recorded sessions: every printed event sequence, and whether a circularity error was reported, must be a
   behaviour of GlobSpec. *)
EXTENDS GlobSpec, Json
Batch == JsonDeserialize("batch.json").batch      \* [prog, events, error]
VARIABLES h, k, s
P == Batch[h].prog
Init == h \in DOMAIN Batch /\ k = 0 /\ s = InitState(Batch[h].prog)
Quiet == s' \in Silent(P, s) /\ UNCHANGED <<h, k>>
Shown == /\ k < Len(Batch[h].events)
         /\ LET m == Visible(P, s) IN m # <<>> /\ m[1] = Batch[h].events[k + 1] /\ s' = m[2]
         /\ k' = k + 1
         /\ UNCHANGED h
Next == Quiet \/ Shown
Spec == Init /\ [][Next]_<<h, k, s>>
Done == k = Len(Batch[h].events) /\ Finished(P, s) /\ s.dead = Batch[h].error
\* the harness collects the histories that reach Done: every one must
Report == Done => PrintT(<<"@D", h>>)
InvUse == UseAfterInit(s)
InvOnce == InitOnce(s)
InvLive == Live(P, s)
=============================================================================
