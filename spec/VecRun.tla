------------------------------- MODULE VecRun -------------------------------
(* The arrays and maps the compiler itself is built on (copies share their buffer until one of them changes), maps with a
   sorted index, and the index of a subset of a sequence.  Variables hold plain sequences here: sharing is never seen. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Batched, Depth, Vars, Keys
Input == JsonDeserialize("batch.json").batch      \* [kind, ops]; kinds: "array", "map", "subset"

VARIABLES kind, st, todo, hist, seen, left
vars == <<kind, st, todo, hist, seen, left>>

InsertAt(s, i, x) == SubSeq(s, 1, i) \o <<x>> \o SubSeq(s, i + 1, Len(s))
RemoveAt(s, i) == SubSeq(s, 1, i) \o SubSeq(s, i + 2, Len(s))
Find(s, k) == IF \E i \in 1..Len(s) : s[i].k = k THEN (CHOOSE i \in 1..Len(s) : s[i].k = k) ELSE 0

(* array elements: [k |-> 0, v]; map elements: [k, v]; subset elements: [k |-> 0, v |-> 1 or 0], in the subset or not *)
Apply(s, op) ==
  LET x == s[op.a]
      e == [k |-> op.k, v |-> op.v]
      f == Find(x, op.k)
      In == op.i >= 0 /\ op.i < Len(x)
      Set(y) == [s EXCEPT ![op.a] = y]
  IN CASE op.o = "add" -> Set(Append(x, e))
       [] op.o = "insert" -> Set(IF In THEN InsertAt(x, op.i, e) ELSE Append(x, e))
       [] op.o = "remove" -> IF In THEN Set(RemoveAt(x, op.i)) ELSE s
       [] op.o = "update" -> IF In THEN Set([x EXCEPT ![op.i + 1] = e]) ELSE s
       [] op.o = "clear" -> Set(<<>>)
       [] op.o = "assign" -> Set(s[op.i])
       [] op.o = "copy" -> s       \* a copy is made and dropped
       [] op.o = "reserve" -> s
       [] op.o = "put" -> Set(IF f = 0 THEN Append(x, e) ELSE [x EXCEPT ![f] = e])
       [] op.o = "del" -> Set(IF f = 0 THEN x ELSE RemoveAt(x, f - 1))
O(o, a, i, k, v) == [o |-> o, a |-> a, i |-> i, k |-> k, v |-> v]
Fresh(x) == {k \in Keys : Find(x, k) = 0}
Ops(s, n) ==
  CASE kind = "array" -> UNION {{O("add", a, 0, 0, n), O("clear", a, 0, 0, 0), O("copy", a, 0, 0, 0), O("reserve", a, Len(s[a]) + 3, 0, 0)}
            \cup {O("insert", a, i, 0, n) : i \in 0..Len(s[a])} \cup {O("remove", a, i, 0, 0) : i \in 0..Len(s[a])}
            \cup {O("assign", a, b, 0, 0) : b \in Vars} : a \in Vars}
    [] kind = "map" -> {O("put", 1, 0, k, n) : k \in Keys} \cup {O("del", 1, 0, k, 0) : k \in Keys} \cup {O("clear", 1, 0, 0, 0)}
            \cup {O("insert", 1, i, k, n) : i \in 0..Len(s[1]), k \in Fresh(s[1])}
            \cup {O("remove", 1, i, 0, 0) : i \in {j \in 0..Len(s[1]) : j < Len(s[1])}}
    [] kind = "subset" -> {O("insert", 1, i, 0, v) : i \in 0..Len(s[1]), v \in {0, 1}}
            \cup {O(o, 1, i, 0, v) : o \in {"remove", "update"}, i \in {j \in 0..Len(s[1]) : j < Len(s[1])}, v \in {0, 1}}
Allowed(s, op) == /\ (kind = "map" /\ op.o = "insert" => Find(s[op.a], op.k) = 0 /\ op.i <= Len(s[op.a]))
                  /\ (kind = "map" /\ op.o = "remove" => op.i < Len(s[op.a]))
                  /\ (kind = "subset" => op.i < Len(s[1]) \/ (op.o = "insert" /\ op.i = Len(s[1])))

Init == \E i \in 1..Len(Input) : kind = Input[i].kind /\ st = [v \in Vars |-> <<>>] /\ todo = Input[i].ops /\ hist = <<>> /\ seen = <<>>
                                 /\ left = IF Batched THEN 0 ELSE Depth
Show(s) == IF kind = "subset" THEN [v \in Vars |-> SelectSeq([i \in 1..Len(s[v]) |-> [k |-> 0, v |-> IF s[v][i].v = 1 THEN i - 1 ELSE -1]], LAMBDA e : e.v >= 0)] ELSE s
Do(op) == LET s == Apply(st, op) IN st' = s /\ hist' = Append(hist, op) /\ seen' = Append(seen, Show(s))
Given == todo # <<>> /\ todo' = Tail(todo) /\ UNCHANGED <<kind, left>> /\ IF Allowed(st, Head(todo)) THEN Do(Head(todo)) ELSE UNCHANGED <<st, hist, seen>>
Free == todo = <<>> /\ left > 0 /\ left' = left - 1 /\ UNCHANGED <<kind, todo>> /\ \E op \in Ops(st, Len(hist) + 1) : Allowed(st, op) /\ Do(op)
End == todo = <<>> /\ left = 0 /\ left' = -1 /\ PrintT("@X " \o ToJson([p |-> [kind |-> kind, ops |-> hist], x |-> seen])) /\ UNCHANGED <<kind, st, todo, hist, seen>>
Next == Given \/ Free \/ End
Spec == Init /\ [][Next]_vars

InvKeys == kind = "map" => \A i, j \in 1..Len(st[1]) : st[1][i].k = st[1][j].k => i = j
=============================================================================
