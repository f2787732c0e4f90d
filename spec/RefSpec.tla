----------------------------- MODULE RefSpec -----------------------------
(* Srl smart references.  Objects are numbered; a new object takes the least free   *)
(* number.  r: SrdRef variables, b: SrdRef to the base type, w: WkRef (0 null, -1   *)
(* expired), u: UnqRef, a: arrays of SrdRef, nx: each object's own SrdRef member.   *)
(* An object is terminated (event 0 - o) at the moment its last owner goes, and its *)
(* own references after it.                                                         *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS NR, NBase, NW, NU, NArr, MaxObj, MaxArr, MaxLive
Obj == 1..MaxObj
RInit == [r |-> [i \in 1..NR |-> 0], b |-> [i \in 1..NBase |-> 0], w |-> [i \in 1..NW |-> 0],
          u |-> [i \in 1..NU |-> 0], a |-> [i \in 1..NArr |-> <<>>], nx |-> [o \in Obj |-> 0],
          up |-> [o \in Obj |-> FALSE], ev |-> <<>>, ret |-> 0]

Owners(s, o) ==
    Cardinality({i \in DOMAIN s.r : s.r[i] = o}) + Cardinality({i \in DOMAIN s.b : s.b[i] = o}) +
    Cardinality({p \in Obj : s.nx[p] = o}) +
    Cardinality({<<i, n>> \in (DOMAIN s.a) \X (1..(MaxArr + 1)) : n <= Len(s.a[i]) /\ s.a[i][n] = o})
UOwned(s, o) == \E i \in DOMAIN s.u : s.u[i] = o
Least(s) == CHOOSE o \in Obj : ~s.up[o] /\ \A p \in 1..(o - 1) : s.up[p]

Born(s) == LET o == Least(s) IN [s EXCEPT !.up[o] = TRUE, !.ev = Append(@, o)]
RECURSIVE Drop(_, _)
Kill(s, o) == LET n == s.nx[o] IN
    Drop([s EXCEPT !.up[o] = FALSE, !.nx[o] = 0, !.ev = Append(@, 0 - o),
                   !.w = [i \in DOMAIN s.w |-> IF s.w[i] = o THEN 0 - 1 ELSE s.w[i]]], n)
Drop(s, o) == IF o = 0 \/ ~s.up[o] \/ Owners(s, o) > 0 THEN s ELSE Kill(s, o)
SetR(s, i, o) == Drop([s EXCEPT !.r[i] = o], s.r[i])
SetB(s, i, o) == Drop([s EXCEPT !.b[i] = o], s.b[i])
SetN(s, p, o) == Drop([s EXCEPT !.nx[p] = o], s.nx[p])
DropU(s, i) == IF s.u[i] = 0 THEN s ELSE Kill([s EXCEPT !.u[i] = 0], s.u[i])
\* an array gives up its elements one by one, first to last
RECURSIVE Empty(_, _)
Empty(s, i) == IF s.a[i] = <<>> THEN s ELSE Empty(Drop([s EXCEPT !.a[i] = Tail(@)], Head(s.a[i])), i)
SetA(s, i, q) == [Empty(s, i) EXCEPT !.a[i] = q]
RemAt(q, x) == SubSeq(q, 1, x) \o SubSeq(q, x + 2, Len(q))
InsAt(q, x, e) == IF x >= 0 /\ x < Len(q) THEN SubSeq(q, 1, x) \o <<e>> \o SubSeq(q, x + 1, Len(q)) ELSE Append(q, e)

\* op: <<code, i, j, x>>
RStep(s0, op) ==
    LET o == op[1]  i == op[2]  j == op[3]  x == op[4]  s == [s0 EXCEPT !.ev = <<>>] IN
    CASE o = 1 -> LET t == SetR(s, i, 0) IN [Born(t) EXCEPT !.r[i] = Least(t)]
      [] o = 2 -> SetR(s, i, s.r[j])
      [] o = 3 -> SetR(s, i, s.w[j])
      [] o = 4 -> SetR(s, i, 0)
      [] o = 5 -> [s EXCEPT !.w[i] = s.r[j]]
      [] o = 6 -> [s EXCEPT !.w[i] = s.w[j]]
      [] o = 7 -> [s EXCEPT !.w[i] = 0]
      [] o \in {9, 26} -> SetR(Born(s), i, Least(s))
      [] o = 10 -> SetN(s, s.r[i], s.r[j])
      [] o = 11 -> SetR(s, i, s.nx[s.r[i]])
      [] o = 12 -> SetR(s, i, s.nx[s.r[j]])
      [] o = 13 -> [s EXCEPT !.a[i] = Append(@, s.r[j])]
      [] o = 14 -> IF x >= 0 /\ x < Len(s.a[i]) THEN Drop([s EXCEPT !.a[i] = RemAt(@, x)], s.a[i][x + 1]) ELSE s
      [] o = 15 -> IF i = j THEN s ELSE SetA(s, i, s.a[j])
      [] o = 16 -> SetR(s, i, s.a[j][x + 1])
      [] o = 17 -> SetB(s, i, s.r[j])
      [] o = 18 -> SetB(s, i, 0)
      [] o = 19 -> SetB(s, i, s.b[j])
      [] o = 20 -> SetR(s, i, s.b[j])
      [] o = 21 -> LET t == DropU(s, i) IN [Born(t) EXCEPT !.u[i] = Least(t)]
      [] o = 22 -> LET t == Born(s) IN [DropU(t, i) EXCEPT !.u[i] = Least(s)]
      [] o = 23 -> DropU(s, i)
      [] o = 25 -> SetR(s, i, s.r[j])
      [] o = 27 -> SetA(s, i, <<>>)
      [] o = 29 -> LET t == Born(s)  t2 == Born(t)  p == Least(s)  q == Least(t) IN
                   [s EXCEPT !.ev = <<p, q, 0 - q, 0 - p>>]
      [] o = 30 -> SetN(s, s.r[i], 0)
      [] o = 31 -> [s EXCEPT !.a[i] = InsAt(@, x, s.r[j])]
      [] o = 32 -> IF x >= 0 /\ x < Len(s.a[i]) THEN Drop([s EXCEPT !.a[i][x + 1] = s.r[j]], s.a[i][x + 1])
                   ELSE [s EXCEPT !.a[i] = Append(@, s.r[j])]
      [] o = 33 -> [s EXCEPT !.w[j] = s.w[i]]
      [] OTHER -> s
RApply(s, op) == [RStep(s, op) EXCEPT !.ret = IF op[1] \in {8, 33} THEN s.w[op[2]] ELSE 0]
RObs(s) == <<s.ev, s.ret, s.r, s.b, [i \in DOMAIN s.w |-> IF s.w[i] = 0 THEN 0 ELSE 1], s.u>> \o s.a

RECURSIVE Reach(_, _)
Reach(s, o) == IF o = 0 THEN {} ELSE {o} \cup Reach(s, s.nx[o])
RR == 1..NR
ROps(s) ==
    {<<o, i, 1, 0>> : o \in {1, 4, 9, 26, 28}, i \in RR} \cup
    {<<o, i, j, 0>> : o \in {2, 25}, i \in RR, j \in RR} \cup
    {<<3, i, j, 0>> : i \in RR, j \in {j \in 1..NW : s.w[j] >= 0}} \cup
    {<<5, i, j, 0>> : i \in 1..NW, j \in RR} \cup
    {<<6, i, j, 0>> : i \in 1..NW, j \in 1..NW} \cup
    {<<7, i, 1, 0>> : i \in 1..NW} \cup
    {<<8, i, 1, 0>> : i \in {i \in 1..NW : s.w[i] >= 0}} \cup
    {<<33, i, j, 0>> : i \in {i \in 1..NW : s.w[i] >= 0}, j \in 1..NW} \cup
    UNION {{<<10, i, j, 0>> : j \in {j \in RR : s.r[i] \notin Reach(s, s.r[j])}} : i \in {i \in RR : s.r[i] /= 0}} \cup
    {<<o, i, 1, 0>> : o \in {11, 30}, i \in {i \in RR : s.r[i] /= 0}} \cup
    {<<12, i, j, 0>> : i \in RR, j \in {j \in RR : s.r[j] /= 0}} \cup
    {<<13, i, j, 0>> : i \in 1..NArr, j \in RR} \cup
    UNION {{<<o, i, j, x>> : o \in {31, 32}, j \in RR, x \in 0..Len(s.a[i])} : i \in 1..NArr} \cup
    UNION {{<<14, i, 1, x>> : x \in 0..Len(s.a[i])} : i \in 1..NArr} \cup
    {<<15, i, j, 0>> : i \in 1..NArr, j \in 1..NArr} \cup
    UNION {{<<16, i, j, x>> : i \in RR, x \in 0..(Len(s.a[j]) - 1)} : j \in 1..NArr} \cup
    {<<17, i, j, 0>> : i \in 1..NBase, j \in RR} \cup
    {<<18, i, 1, 0>> : i \in 1..NBase} \cup
    {<<19, i, j, 0>> : i \in 1..NBase, j \in 1..NBase} \cup
    {<<20, i, j, 0>> : i \in RR, j \in {j \in 1..NBase : s.b[j] /= 0}} \cup
    {<<o, i, 1, 0>> : o \in 21..24, i \in 1..NU} \cup
    {<<27, i, 1, 0>> : i \in 1..NArr} \cup
    {<<29, 1, 1, 0>>}
RWithin(s) == /\ Cardinality({o \in Obj : s.up[o]}) <= MaxLive
              /\ \A i \in 1..NArr : Len(s.a[i]) <= MaxArr
RShape(s) == [s EXCEPT !.ret = 0, !.ev = <<>>]
\* an object is alive exactly while it has an owner
Alive(s) == \A o \in Obj : s.up[o] <=> (Owners(s, o) > 0 \/ UOwned(s, o))
WeakSound(s) == \A i \in DOMAIN s.w : s.w[i] > 0 => s.up[s.w[i]]
=============================================================================
