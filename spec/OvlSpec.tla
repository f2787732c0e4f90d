------------------------------ MODULE OvlSpec ------------------------------
(* Core containers that inherit from a base container.

   A container holds entries of its own; with a base it presents the base's entries, in the base's order, each replaced
   by an own entry where there is one (an override), followed by its remaining own entries (its tail).  Bases form
   chains.  In a map an entry is identified by its key; in a list an entry keeps its identity (a number) for as long as
   the container that owns it keeps it.

   What an operation does to the containers below is described by two events on them: Enter (an entry becomes visible
   in the base) and Leave (it is no longer visible there). *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Containers == 1..3

Start(kind) == [kind |-> kind, base |-> [c \in Containers |-> 0], own |-> [c \in Containers |-> <<>>],
                tail |-> [c \in Containers |-> <<>>], dead |-> {}, next |-> 1]

(* own[c] is a function from entries to values *)
Has(st, c, k) == k \in DOMAIN st.own[c]
Put(st, c, k, v) == [st EXCEPT !.own[c] = (k :> v) @@ @]
Drop(st, c, k) == [st EXCEPT !.own[c] = [x \in DOMAIN @ \ {k} |-> @[x]], !.tail[c] = SelectSeq(@, LAMBDA x : x # k)]

RECURSIVE View(_, _)
Inherited(st, c) == IF st.base[c] = 0 THEN <<>> ELSE View(st, st.base[c])
View(st, c) ==
  LET b == Inherited(st, c) IN
  [i \in 1..Len(b) |-> IF Has(st, c, b[i].k) THEN [k |-> b[i].k, v |-> st.own[c][b[i].k], inh |-> FALSE]
                        ELSE [k |-> b[i].k, v |-> b[i].v, inh |-> TRUE]]
  \o [i \in 1..Len(st.tail[c]) |-> [k |-> st.tail[c][i], v |-> st.own[c][st.tail[c][i]], inh |-> FALSE]]

Keys(view) == {view[i].k : i \in 1..Len(view)}
IndexOf(view, k) == CHOOSE i \in 1..Len(view) : view[i].k = k

Derived(st, c) == {d \in Containers : st.base[d] = c}

RECURSIVE Enter(_, _, _), Leave(_, _, _), EnterAll(_, _, _), LeaveAll(_, _, _)
EnterAll(st, ds, k) == IF ds = {} THEN st ELSE LET d == CHOOSE d \in ds : TRUE IN EnterAll(Enter(st, d, k), ds \ {d}, k)
LeaveAll(st, ds, k) == IF ds = {} THEN st ELSE LET d == CHOOSE d \in ds : TRUE IN LeaveAll(Leave(st, d, k), ds \ {d}, k)
(* entry k becomes visible in the base of d *)
Enter(st, d, k) ==
  IF Has(st, d, k) THEN [st EXCEPT !.tail[d] = SelectSeq(@, LAMBDA x : x # k)]   \* the own entry overrides it now
  ELSE EnterAll(st, Derived(st, d), k)
(* entry k is no longer visible in the base of d: an override of it stays, as an ordinary entry *)
Leave(st, d, k) ==
  IF ~Has(st, d, k) THEN LeaveAll(st, Derived(st, d), k)
  ELSE IF st.kind = "map" THEN [st EXCEPT !.tail[d] = Append(@, k)]
  ELSE LET n == st.next
           s1 == Put([Drop(st, d, k) EXCEPT !.next = n + 1], d, n, st.own[d][k])
           s2 == [s1 EXCEPT !.tail[d] = <<n>> \o @]
       IN EnterAll(LeaveAll(s2, Derived(s2, d), k), Derived(s2, d), n)

(* an own entry of c that is not an override goes *)
Remove(st, c, k) == LeaveAll(Drop(st, c, k), Derived(st, c), k)

(* a list entry that overrides an entry of the base is an entry like any other once the base is left *)
RECURSIVE Below(_, _), Rename(_, _, _)
Below(st, ds) == LET n == ds \cup UNION {Derived(st, d) : d \in ds} IN IF n = ds THEN ds ELSE Below(st, n)
Fresh(st, c, k, n) == [st EXCEPT !.own[c] = IF k \in DOMAIN @ THEN (n :> @[k]) @@ [x \in DOMAIN @ \ {k} |-> @[x]] ELSE @,
                                 !.tail[c] = [i \in 1..Len(@) |-> IF @[i] = k THEN n ELSE @[i]]]
Rename(st, cs, k) == IF cs = {} THEN [st EXCEPT !.next = @ + 1]
                     ELSE LET c == CHOOSE c \in cs : TRUE IN Rename(Fresh(st, c, k, st.next), cs \ {c}, k)
RECURSIVE RenameAll(_, _, _)
RenameAll(st, d, ks) == IF ks = {} THEN st ELSE LET k == CHOOSE k \in ks : TRUE IN RenameAll(Rename(st, Below(st, {d}), k), d, ks \ {k})
Detach(st, d) ==
  LET v == View(st, d)
      mine == SelectSeq(v, LAMBDA e : ~e.inh)
      gone == SelectSeq(v, LAMBDA e : e.inh)
      s0 == [st EXCEPT !.base[d] = 0, !.tail[d] = [i \in 1..Len(mine) |-> mine[i].k]]
      RECURSIVE Go(_, _)
      Go(s, i) == IF i = 0 THEN s ELSE Go(LeaveAll(s, Derived(s, d), gone[i].k), i - 1)
      s1 == Go(s0, Len(gone))
  IN IF st.base[d] = 0 THEN st
     ELSE IF st.kind = "map" THEN s1
     ELSE RenameAll(s1, d, {mine[i].k : i \in {j \in 1..Len(mine) : j <= Len(mine) /\ mine[j].k \in Keys(Inherited(st, d))}})
Attach(st, d, b) ==
  LET v == View(st, b)
      RECURSIVE Go(_, _)
      Go(s, i) == IF i > Len(v) THEN s ELSE Go(Enter(s, d, v[i].k), i + 1)
  IN Go([st EXCEPT !.base[d] = b], 1)

RECURSIVE DetachAll(_, _)
DetachAll(st, ds) == IF ds = {} THEN st ELSE LET d == CHOOSE d \in ds : TRUE IN DetachAll(Detach(st, d), ds \ {d})

(* Operations: [o, c, k, i, v]; the result is [st, r]: r is -2 when the operation is refused, an index, or -1 *)
Refused(st) == [st |-> st, r |-> -2]
Ok(st, r) == [st |-> st, r |-> r]

NewEntry(st, c, k, v, at) ==     \* at: position in the tail after which it comes
  LET t == st.tail[c]
      s1 == [Put(st, c, k, v) EXCEPT !.tail[c] = SubSeq(t, 1, at) \o <<k>> \o SubSeq(t, at + 1, Len(t))]
  IN EnterAll(s1, Derived(s1, c), k)

Apply(st, op) ==
  LET c == op.c
      v == View(st, c)
      nb == Len(Inherited(st, c))
      key == IF st.kind = "map" THEN op.k ELSE st.next      \* the key of a new entry
      s0 == IF st.kind = "map" THEN st ELSE [st EXCEPT !.next = @ + 1]
      known == st.kind = "map" /\ op.k \in Keys(v)
      at == IF known THEN IndexOf(v, op.k) ELSE 0
      InRange(i) == i >= 0 /\ i < Len(v)
      RemoveAt(i) == IF v[i].inh THEN Refused(st)
                     ELSE IF i <= nb THEN Ok(Drop(st, c, v[i].k), i - 1)       \* the base's entry shows again
                     ELSE Ok(Remove(st, c, v[i].k), i - 1)
  IN CASE op.o = "add" ->
            IF known THEN (IF v[at].inh THEN Ok(Put(st, c, op.k, op.v), at - 1) ELSE Refused(st))
            ELSE Ok(NewEntry(s0, c, key, op.v, Len(st.tail[c])), Len(v))
       [] op.o = "insert" ->
            IF known \/ op.i < nb \/ op.i > Len(v) THEN Refused(st) ELSE Ok(NewEntry(s0, c, key, op.v, op.i - nb), -1)
       [] op.o = "set" ->      \* by key
            IF known THEN Ok(Put(st, c, op.k, op.v), at - 1) ELSE Ok(NewEntry(s0, c, key, op.v, Len(st.tail[c])), Len(v))
       [] op.o = "setat" ->
            IF InRange(op.i) THEN Ok(Put(st, c, v[op.i + 1].k, op.v), -1)
            ELSE IF st.kind = "list" /\ op.i = Len(v) THEN Ok(NewEntry(s0, c, key, op.v, Len(st.tail[c])), -1) ELSE Refused(st)
       [] op.o = "remove" -> IF ~known THEN Refused(st) ELSE RemoveAt(at)
       [] op.o = "removeat" -> IF InRange(op.i) THEN [RemoveAt(op.i + 1) EXCEPT !.r = IF @ = -2 THEN -2 ELSE -1] ELSE Refused(st)
       [] op.o = "clear" ->
            LET RECURSIVE Go(_)
                Go(s) == IF s.tail[c] = <<>> THEN s ELSE Go(Remove(s, c, s.tail[c][Len(s.tail[c])]))
                over == {k \in DOMAIN st.own[c] : \A i \in 1..Len(st.tail[c]) : st.tail[c][i] # k}
            IN Ok(Go([st EXCEPT !.own[c] = [x \in DOMAIN @ \ over |-> @[x]]]), -1)
       [] op.o = "base" -> Ok(IF op.i = 0 THEN Detach(st, c) ELSE Attach(Detach(st, c), c, op.i), -1)
       [] op.o = "destroy" ->
            LET s1 == Detach(DetachAll(st, Derived(st, c)), c)
            IN Ok([s1 EXCEPT !.own[c] = <<>>, !.tail[c] = <<>>, !.dead = @ \cup {c}], -1)

(* bases only point to higher numbered containers *)
Ops(st, keys, step) ==
  LET live == Containers \ st.dead
      v(c) == Len(View(st, c))
      O(o, c, k, i) == [o |-> o, c |-> c, k |-> k, i |-> i, v |-> step]
  IN (IF st.kind = "map"
      THEN UNION {{O("add", c, k, 0), O("set", c, k, 0), O("remove", c, k, 0)} : c \in live, k \in keys}
           \cup UNION {{O("insert", c, k, i) : i \in 0..v(c)} : c \in live, k \in keys}
      ELSE {O("add", c, "", 0) : c \in live} \cup UNION {{O("insert", c, "", i) : i \in 0..v(c)} : c \in live})
     \cup UNION {{O("setat", c, "", i) : i \in 0..v(c)} \cup {O("removeat", c, "", i) : i \in 0..v(c)} : c \in live}
     \cup {O("clear", c, "", 0) : c \in live}
     \cup {O("base", c, "", b) : c \in {1, 2} \cap live, b \in {0} \cup (live \cap {2, 3})}
     \cup {O("destroy", c, "", 0) : c \in live}
Allowed(op) == op.o = "base" => op.i = 0 \/ op.i > op.c

----------------------------------------------------------------------------
Range(s) == {s[i] : i \in 1..Len(s)}
(* every own entry is either an override or in the tail, once *)
TailOK(st) == \A c \in Containers : LET b == Keys(Inherited(st, c)) IN
  /\ Range(st.tail[c]) = DOMAIN st.own[c] \ b
  /\ Cardinality(Range(st.tail[c])) = Len(st.tail[c])
KeysOnce(st) == \A c \in Containers : Cardinality(Keys(View(st, c))) = Len(View(st, c))
(* the base comes first, in its order; what is not overridden is the base's *)
Overlay(st) == \A c \in Containers : st.base[c] # 0 =>
  LET b == View(st, st.base[c]) v == View(st, c) IN
    /\ Len(v) >= Len(b)
    /\ \A i \in 1..Len(v) : IF i <= Len(b) THEN v[i].k = b[i].k /\ (v[i].inh => v[i].v = b[i].v) ELSE ~v[i].inh
=============================================================================
