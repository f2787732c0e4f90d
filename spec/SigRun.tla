------------------------------- MODULE SigRun -------------------------------
(* Signals and slots as a machine.  A connection joins a slot to a signal; emitting a signal calls, in the order they
   were made, the connections that exist when the emission starts and still exist when their turn comes.  A slot may be
   told to do something the next time it is called (connect, disconnect, emit, destroy itself or another, ...), so
   emissions nest: the frames of the emissions under way are kept in a stack. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Batched, Depth, Signals, Slots
Input == JsonDeserialize("batch.json").batch      \* [mode, ops]; mode: "void" call all; "any" stop at the first TRUE answer

VARIABLES mode, conn, nextId, plan, live, stack, todo, hist, log, left
vars == <<mode, conn, nextId, plan, live, stack, todo, hist, log, left>>

NoOp == [o |-> "-", g |-> 0, s |-> 0]
Answer(s) == s % 2 = 0

Init == \E i \in 1..Len(Input) :
  /\ mode = Input[i].mode /\ todo = Input[i].ops /\ left = IF Batched THEN 0 ELSE Depth
  /\ conn = [g \in Signals |-> <<>>] /\ nextId = 1 /\ plan = [s \in Slots |-> NoOp] /\ live = Slots
  /\ stack = <<>> /\ hist = <<>> /\ log = <<>>

Drop(c, P(_, _)) == [g \in Signals |-> SelectSeq(c[g], LAMBDA e : ~P(g, e))]

(* what an operation does right away, outside and inside emissions alike *)
Perform(op) ==
  /\ CASE op.o = "connect" -> IF op.s \notin live \/ (\E i \in 1..Len(conn[op.g]) : conn[op.g][i].s = op.s) THEN UNCHANGED <<conn, nextId>>
                              ELSE conn' = [conn EXCEPT ![op.g] = Append(@, [s |-> op.s, id |-> nextId])] /\ nextId' = nextId + 1
       [] op.o = "disconnect" -> conn' = Drop(conn, LAMBDA g, e : g = op.g /\ e.s = op.s) /\ UNCHANGED nextId
       [] op.o \in {"off", "kill"} -> conn' = Drop(conn, LAMBDA g, e : e.s = op.s) /\ UNCHANGED nextId
       [] op.o = "alloff" -> conn' = Drop(conn, LAMBDA g, e : g = op.g) /\ UNCHANGED nextId
       [] OTHER -> UNCHANGED <<conn, nextId>>
  /\ live' = IF op.o = "kill" THEN live \ {op.s} ELSE live
Ids(g) == [i \in 1..Len(conn[g]) |-> conn[g][i]]
Push(op) == IF op.o = "emit" THEN <<[g |-> op.g, rest |-> Ids(op.g), yes |-> 0]>> ELSE <<>>

Top(op) ==
  /\ Perform(op)
  /\ stack' = Push(op)
  /\ plan' = IF op.o = "plan" THEN [plan EXCEPT ![op.s] = op.then] ELSE plan
  /\ hist' = Append(hist, op)
  /\ UNCHANGED <<mode, log>>
Given == stack = <<>> /\ todo # <<>> /\ Top(Head(todo)) /\ todo' = Tail(todo) /\ UNCHANGED left

Simple == {[o |-> o, g |-> g, s |-> s] : o \in {"connect", "disconnect"}, g \in Signals, s \in live}
          \cup {[o |-> o, g |-> 0, s |-> s] : o \in {"off", "kill"}, s \in live}
          \cup {[o |-> o, g |-> g, s |-> 0] : o \in {"emit", "alloff"}, g \in Signals}
Free == /\ stack = <<>> /\ todo = <<>> /\ left > 0 /\ left' = left - 1
       /\ (\/ \E op \in Simple : Top([o |-> op.o, g |-> op.g, s |-> op.s, then |-> NoOp])
           \/ \E s \in live, op \in Simple : plan[s] = NoOp /\ Top([o |-> "plan", g |-> 0, s |-> s, then |-> op]))
       /\ UNCHANGED todo

F == stack[Len(stack)]
Pop == SubSeq(stack, 1, Len(stack) - 1)
(* the emission on top of the stack calls its next connection *)
Call ==
  /\ stack # <<>>
  /\ IF F.rest = <<>> \/ (mode = "any" /\ F.yes > 0)
     THEN /\ stack' = Pop
          /\ log' = Append(log, [g |-> F.g, s |-> 0, r |-> F.yes])
          /\ UNCHANGED <<conn, nextId, plan, live>>
     ELSE LET e == Head(F.rest)
              here == \E i \in 1..Len(conn[F.g]) : conn[F.g][i] = e
              f2 == [F EXCEPT !.rest = Tail(@), !.yes = @ + (IF here /\ Answer(e.s) THEN 1 ELSE 0)]
          IN IF ~here THEN stack' = Append(Pop, f2) /\ UNCHANGED <<conn, nextId, plan, live, log>>
             ELSE /\ log' = Append(log, [g |-> F.g, s |-> e.s, r |-> 0])
                  /\ plan' = [plan EXCEPT ![e.s] = NoOp]
                  /\ Perform(plan[e.s])
                  /\ stack' = Append(Pop, f2) \o Push(plan[e.s])
  /\ UNCHANGED <<mode, todo, hist, left>>

End == stack = <<>> /\ todo = <<>> /\ left = 0 /\ left' = -1
       /\ PrintT("@X " \o ToJson([p |-> [mode |-> mode, ops |-> hist],
                                  x |-> [log |-> log, conn |-> [g \in Signals |-> [i \in 1..Len(conn[g]) |-> conn[g][i].s]]]]))
       /\ UNCHANGED <<mode, conn, nextId, plan, live, stack, todo, hist, log>>
Next == Given \/ Free \/ Call \/ End
Spec == Init /\ [][Next]_vars

(* a slot is connected to a signal at most once, and only while it lives; frames only hold older connections, in order *)
InvOnce == \A g \in Signals : \A i, j \in 1..Len(conn[g]) : conn[g][i].s = conn[g][j].s => i = j
InvLive == \A g \in Signals : \A i \in 1..Len(conn[g]) : conn[g][i].s \in live
InvOrder == \A k \in 1..Len(stack) : \A i, j \in 1..Len(stack[k].rest) : i < j => stack[k].rest[i].id < stack[k].rest[j].id
=============================================================================
