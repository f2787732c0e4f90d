------------------------------- MODULE LayRun -------------------------------
(* Two objects next to each other, written, read and copied leaf by leaf and whole, and through their bytes. *)
EXTENDS LaySpec, Json

CONSTANTS Batched, MaxMembers
Input == JsonDeserialize("batch.json").batch      \* [classes, root, ops] or [classes, alphabet]: all classes over the alphabet

VARIABLES classes, root, mem, todo, hist, seen, ended
vars == <<classes, root, mem, todo, hist, seen, ended>>

Obj == [k |-> "arr", w |-> 2, e |-> <<[k |-> "cls", w |-> root, e |-> <<>>]>>]

(* every leaf written with bytes of its own, in an order that is not the order of the addresses, then all read *)
OpW(p, v) == [o |-> "write", path |-> p, from |-> <<>>, v |-> v, at |-> 0]
OpR(p) == [o |-> "read", path |-> p, from |-> <<>>, v |-> <<>>, at |-> 0]
Bytes(cs, t, p, n) ==
  LET u == TypeAt(cs, t, p) IN
  IF u.k \in {"ptr", "ref"} THEN [j \in 1..8 |-> 1000 + (n % 4)]
  ELSE IF u.k = "flt" THEN (IF u.w = 32 THEN <<0, 0, (n % 2) * 128, 64>> ELSE <<0, 0, 0, 0, 0, 0, (n % 8) * 16, 64>>)
  ELSE IF u.w = 1 THEN <<n % 2>>
  ELSE [j \in 1..Size(cs, u) |-> (n * 37 + j * 11) % 256]
AllOps(cs, t) ==
  LET l == Leaves(cs, t)
      n == Len(l)
      perm(i) == IF i % 2 = 1 THEN n - (i \div 2) ELSE i \div 2
  IN [i \in 1..n |-> OpW(l[perm(i)], Bytes(cs, t, l[perm(i)], perm(i)))] \o [i \in 1..n |-> OpR(l[i])]

Begin(cs, r, ops) ==
  /\ classes = cs /\ root = r /\ todo = ops
  /\ mem = [i \in 1..(2 * Size(cs, [k |-> "cls", w |-> r, e |-> <<>>])) |-> 1]
  /\ hist = <<>> /\ seen = <<>> /\ ended = FALSE
Init ==
  \E i \in 1..Len(Input) :
    IF Batched THEN Begin(Input[i].classes, Input[i].root, Input[i].ops)
    ELSE \E n \in 1..MaxMembers : \E m \in [1..n -> {Input[i].alphabet[j] : j \in 1..Len(Input[i].alphabet)}] :
           LET cs == Append(Input[i].classes, m)
               r == Len(cs)
           IN Begin(cs, r, AllOps(cs, [k |-> "arr", w |-> 2, e |-> <<[k |-> "cls", w |-> r, e |-> <<>>]>>]))

Do == /\ todo # <<>>
      /\ LET op == Head(todo) IN
         /\ mem' = CASE op.o = "write" -> Write(mem, classes, Obj, op.path, op.v)
                     [] op.o = "poke" -> [mem EXCEPT ![At(classes, Obj, op.path) + op.at + 1] = op.v[1]]   \* through a pointer to bytes
                     [] op.o = "copy" -> Copy(mem, classes, Obj, op.path, op.from)
                     [] OTHER -> mem
         /\ seen' = Append(seen, CASE op.o = "read" -> Read(mem, classes, Obj, op.path) [] op.o = "poke" -> <<At(classes, Obj, op.path) + op.at>> [] OTHER -> <<>>)
         /\ hist' = Append(hist, op)
      /\ todo' = Tail(todo)
      /\ UNCHANGED <<classes, root, ended>>
End == /\ todo = <<>> /\ ~ended /\ ended' = TRUE
       /\ PrintT("@X " \o ToJson([p |-> [classes |-> classes, root |-> root, ops |-> hist],
                                  x |-> [sizes |-> [c \in 1..Len(classes) |-> Size(classes, [k |-> "cls", w |-> c, e |-> <<>>])],
                                         seen |-> seen, mem |-> mem]]))
       /\ UNCHANGED <<classes, root, mem, todo, hist, seen>>
Next == Do \/ End
Spec == Init /\ [][Next]_vars

L == Leaves(classes, Obj)
RECURSIVE Sum(_, _)
Sum(l, i) == IF i = 0 THEN 0 ELSE Size(classes, TypeAt(classes, Obj, l[i])) + Sum(l, i - 1)
(* no two leaves share a byte, all are inside the object and each starts where its type may *)
InvLayout == hist = <<>> =>
  LET l == L
      cells == UNION {LeafCells(classes, Obj, l[i]) : i \in 1..Len(l)}
  IN /\ Cardinality(cells) = Sum(l, Len(l))
     /\ cells \subseteq 1..Len(mem)
     /\ \A i \in 1..Len(l) : At(classes, Obj, l[i]) % Align(classes, TypeAt(classes, Obj, l[i])) = 0
(* a write is read back, and changes nothing else *)
InvReadBack == hist # <<>> /\ hist[Len(hist)].o = "write" =>
  Read(mem, classes, Obj, hist[Len(hist)].path) = hist[Len(hist)].v
=============================================================================
