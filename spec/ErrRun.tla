------------------------------ MODULE ErrRun ------------------------------
(* The space: functions 1 and 2 and two statements in every order; each function and statement clean or not, and what
   each needs. *)
EXTENDS ErrSpec, Json
CONSTANTS Mode
VARIABLES prog, st
Need(S, b) == LET T == {[u |-> u, id |-> b + u] : u \in S} IN
   IF T = {} THEN <<>> ELSE IF Cardinality(T) = 1 THEN <<CHOOSE x \in T : TRUE>>
   ELSE LET x == CHOOSE x \in T : \A y \in T : x.u <= y.u IN <<x, CHOOSE y \in T : y # x>>
U(b, S, n) == [kind |-> "fn", bad |-> IF b THEN <<n>> ELSE <<>>, needs |-> Need(S, n)]
R(b, S, n) == [k |-> "run", u |-> 0, bad |-> IF b THEN <<n>> ELSE <<>>, needs |-> Need(S, n)]
D(u) == [k |-> "def", u |-> u, bad |-> <<>>, needs |-> <<>>]
Orders(a, b) == {<<D(1), D(2), a, b>>, <<D(1), a, D(2), b>>, <<D(2), D(1), a, b>>, <<D(2), a, D(1), b>>, <<a, D(1), D(2), b>>, <<D(1), a, b, D(2)>>}
Batch == JsonDeserialize("batch.json").batch
Gen == \E b1 \in BOOLEAN, b2 \in BOOLEAN, b3 \in BOOLEAN, b4 \in BOOLEAN,
          n1 \in SUBSET {1, 2}, n2 \in {{}, {1}}, n3 \in SUBSET {1, 2}, n4 \in SUBSET {1, 2} :
       \E o \in Orders(R(b3, n3, 30), R(b4, n4, 40)) :
         prog = [items |-> o, units |-> <<U(b1, n1, 10), U(b2, n2, 20)>>]
Init == /\ IF Mode = "gen" THEN Gen ELSE prog \in {Batch[i] : i \in DOMAIN Batch}
        /\ st = Start
Next == ~st.done /\ st' \in Succ(prog, st) /\ UNCHANGED prog
Spec == Init /\ [][Next]_<<prog, st>>
InvOnlyCleanRuns == OnlyCleanRuns(prog, st)
InvComplete == Complete(prog, st)
InvInOrder == InOrder(st)
Report == st.done => PrintT("@X " \o ToJson([p |-> prog, x |-> Answer(prog, st)]))
=============================================================================
