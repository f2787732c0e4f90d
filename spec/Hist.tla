------------------------------- MODULE Hist -------------------------------
(* Histories of operations on an abstract data type.                              *)
(* An ADT module (ArraySpec, MapSpec, StrSpec, RefSpec, ...) supplies the initial  *)
(* state, the operations offered in a state, the transition and the observation.  *)
(*   gen   : TLC explores the reachable states (hist is hidden by the VIEW) and    *)
(*           prints one history for every transition of the graph, with the        *)
(*           observation the specification prescribes after its last operation.    *)
(*   trace : TLC follows the histories recorded from the real code and compares    *)
(*           every observation (invariant Conforms).                               *)
EXTENDS Naturals, Sequences, TLC, Json
CONSTANTS Init0, Ops(_), Apply(_, _), Obs(_), Within(_), Shape(_)
VARIABLES h, k, s, hist
hvars == <<h, k, s, hist>>

GenInit == h = 0 /\ k = 0 /\ s = Init0 /\ hist = <<>>
GenNext == \E op \in Ops(s) : s' = Apply(s, op) /\ hist' = Append(hist, op) /\ UNCHANGED <<h, k>>
GenSpec == GenInit /\ [][GenNext]_hvars
GenView == Shape(s)
GenBound == Within(s)
Emit == PrintT("@E " \o ToJson([ops |-> hist', obs |-> Obs(s')]))

B == JsonDeserialize("batch.json")
TraceInit == h \in 1..Len(B) /\ k = 0 /\ s = Init0 /\ hist = <<>>
TraceNext == /\ k < Len(B[h].ops)
             /\ s' = Apply(s, B[h].ops[k + 1])
             /\ k' = k + 1
             /\ UNCHANGED <<h, hist>>
TraceSpec == TraceInit /\ [][TraceNext]_hvars
Conforms == k > 0 => Obs(s) = B[h].obs[k]
=============================================================================
