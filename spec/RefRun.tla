------------------------------- MODULE RefRun -------------------------------
(* Shared ownership: variables and objects hold references; an object goes, once, with its last reference, and takes
   the reference it holds with it. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Batched, Depth, Vars
Input == JsonDeserialize("batch.json").batch      \* sequences of [o, a, b]

VARIABLES st, todo, hist, seen, left
vars == <<st, todo, hist, seen, left>>

(* val: variable -> object (0 none); next: object -> object; cnt: object -> number of references; dead: the objects gone, in order *)
Start == [val |-> [v \in Vars |-> 0], weak |-> 0, next |-> <<>>, cnt |-> <<>>, dead |-> <<>>]

Hold(s, o) == IF o = 0 THEN s ELSE [s EXCEPT !.cnt[o] = @ + 1]
RECURSIVE Let(_, _)
Let(s, o) ==
  IF o = 0 THEN s
  ELSE IF s.cnt[o] > 1 THEN [s EXCEPT !.cnt[o] = @ - 1]
  ELSE Let([s EXCEPT !.cnt[o] = 0, !.next[o] = 0, !.dead = Append(@, o)], s.next[o])
SetVar(s, v, o) == LET s1 == Hold(s, o) IN Let([s1 EXCEPT !.val[v] = o], s.val[v])
SetNext(s, p, o) == LET s1 == Hold(s, o) IN Let([s1 EXCEPT !.next[p] = o], s.next[p])
Alive(s, o) == o # 0 /\ s.cnt[o] > 0

Apply(s, op) ==
  LET a == s.val[op.a] b == IF op.b \in Vars THEN s.val[op.b] ELSE 0 IN
  CASE op.o = "new" ->    \* the old object goes before the new one is made
         LET s1 == SetVar(s, op.a, 0) IN SetVar([s1 EXCEPT !.next = Append(@, 0), !.cnt = Append(@, 0)], op.a, Len(s.next) + 1)
    [] op.o = "set" -> SetVar(s, op.a, b)
    [] op.o = "release" -> SetVar(s, op.a, 0)
    [] op.o = "link" -> SetNext(s, a, b)           \* the object of a now holds the object of b
    [] op.o = "next" -> SetVar(s, op.a, s.next[a]) \* a moves on to the object its object holds
    [] op.o = "weak" -> [s EXCEPT !.weak = a]
    [] op.o = "strong" -> SetVar(s, op.a, s.weak)
    [] op.o = "swap" ->    \* through a temporary
         LET s1 == Hold(s, a) s2 == SetVar(s1, op.a, b) IN Let(SetVar(s2, op.b, a), a)
Allowed(s, op) == /\ (op.o \in {"link", "next"} => s.val[op.a] # 0)
                  /\ (op.o = "strong" => s.weak = 0 \/ Alive(s, s.weak))
Ops == {[o |-> o, a |-> a, b |-> 0] : o \in {"new", "release", "next", "weak", "strong"}, a \in Vars}
       \cup {[o |-> o, a |-> a, b |-> b] : o \in {"set", "link", "swap"}, a \in Vars, b \in Vars}

(* what has gone when the variables have gone and every object reachable from them has let go of what it holds *)
RECURSIVE Reach(_, _)
Reach(s, R) == LET N == R \cup {s.next[o] : o \in R \ {0}} IN IF N = R THEN R \ {0} ELSE Reach(s, N)
Gone(s) == {s.dead[i] : i \in 1..Len(s.dead)} \cup Reach(s, {s.val[v] : v \in Vars})

Init == \E i \in 1..Len(Input) : st = Start /\ todo = Input[i].ops /\ hist = <<>> /\ seen = <<>> /\ left = IF Batched THEN 0 ELSE Depth
Show(s) == [val |-> s.val, cnt |-> [v \in Vars |-> IF s.val[v] = 0 THEN 0 ELSE s.cnt[s.val[v]]], dead |-> s.dead]
Do(op) == LET s == Apply(st, op) IN st' = s /\ hist' = Append(hist, op) /\ seen' = Append(seen, Show(s))
Given == todo # <<>> /\ todo' = Tail(todo) /\ UNCHANGED left /\ IF Allowed(st, Head(todo)) THEN Do(Head(todo)) ELSE UNCHANGED <<st, hist, seen>>
Free == todo = <<>> /\ left > 0 /\ left' = left - 1 /\ UNCHANGED todo /\ \E op \in Ops : Allowed(st, op) /\ Do(op)
End == todo = <<>> /\ left = 0 /\ left' = -1 /\ PrintT("@X " \o ToJson([p |-> [ops |-> hist], x |-> [seen |-> seen, gone |-> Gone(st)]])) /\ UNCHANGED <<st, todo, hist, seen>>
Next == Given \/ Free \/ End
Spec == Init /\ [][Next]_vars

Objects == 1..Len(st.cnt)
InvCount == \A o \in Objects : st.cnt[o] = Cardinality({v \in Vars : st.val[v] = o}) + Cardinality({p \in Objects : st.next[p] = o})
InvDead == \A o \in Objects : (st.cnt[o] = 0) = (\E i \in 1..Len(st.dead) : st.dead[i] = o)
InvOnce == Cardinality({st.dead[i] : i \in 1..Len(st.dead)}) = Len(st.dead)
=============================================================================
