---------------------------- MODULE ArraySpec ----------------------------
(* Srl.Array: NA array variables over reference counted, copy-on-write buffers.    *)
(*   g : the value sequences a user sees (the abstract state)                      *)
(*   a : the buffer each array points to (0: none)                                 *)
(*   b : the buffers, content and capacity                                         *)
(* Refines says that the buffers always represent the value sequences.             *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS NA, Vals, MaxSeq
AIdx == 1..NA
Free == [c |-> <<>>, cap |-> 0]
AInit == [g |-> [i \in AIdx |-> <<>>], a |-> [i \in AIdx |-> 0],
          b |-> [n \in 1..(NA + 1) |-> Free], ret |-> 0]

Refs(s, n) == Cardinality({i \in AIdx : s.a[i] = n})
Content(s, i) == IF s.a[i] = 0 THEN <<>> ELSE s.b[s.a[i]].c
Fresh(s) == CHOOSE n \in 1..(NA + 1) : Refs(s, n) = 0 /\ \A m \in 1..(n - 1) : Refs(s, m) > 0
Max2(x, y) == IF x > y THEN x ELSE y
Half(n) == n \div 2

\* ---- sequence helpers (positions are 0-based as in the library)
RemoveIdx(q, x) == SubSeq(q, 1, x) \o SubSeq(q, x + 2, Len(q))
InsertIdx(q, x, v) == SubSeq(q, 1, x) \o <<v>> \o SubSeq(q, x + 1, Len(q))
InRange(q, x) == x >= 0 /\ x < Len(q)
SetSeq(q, x, v) == IF InRange(q, x) THEN [q EXCEPT ![x + 1] = v] ELSE Append(q, v)
InsSeq(q, x, v) == IF InRange(q, x) THEN InsertIdx(q, x, v) ELSE Append(q, v)
RemSeq(q, x) == IF InRange(q, x) THEN RemoveIdx(q, x) ELSE q
SliceSeq(q, x, n) == IF n <= 0 \/ x >= Len(q) THEN <<>>
                     ELSE SubSeq(q, x + 1, IF x + n > Len(q) THEN Len(q) ELSE x + n)
FindSeq(q, v) == IF \E x \in 1..Len(q) : q[x] = v
                 THEN (CHOOSE x \in 1..Len(q) : q[x] = v /\ \A y \in 1..(x - 1) : q[y] /= v) - 1
                 ELSE 0 - 1

\* ---- buffer transitions
GC(s) == [s EXCEPT !.b = [n \in DOMAIN s.b |-> IF Refs(s, n) = 0 THEN Free ELSE s.b[n]]]
Alloc(s, i, q, size) == LET n == Fresh([s EXCEPT !.a[i] = 0]) IN
    GC([s EXCEPT !.a[i] = n, !.b[n] = [c |-> q, cap |-> Max2(2, size)]])
Prep(s, i, enlarge) ==
    IF s.a[i] = 0 THEN Alloc(s, i, <<>>, 2)
    ELSE LET bf == s.b[s.a[i]] IN
         IF Refs(s, s.a[i]) = 1
         THEN IF enlarge /\ Len(bf.c) >= bf.cap THEN [s EXCEPT !.b[s.a[i]].cap = bf.cap + Half(bf.cap)] ELSE s
         ELSE LET n == CHOOSE n \in 1..(NA + 1) : Refs(s, n) = 0 IN
              [s EXCEPT !.a[i] = n, !.b[n] = [c |-> bf.c, cap |-> Max2(2, Len(bf.c) + Half(Len(bf.c)))]]
PutBuf(s, i, q) == [s EXCEPT !.b[s.a[i]].c = q]
Point(s, i, n) == GC([s EXCEPT !.a[i] = n])

BufAdd(s, i, v) == LET t == Prep(s, i, TRUE) IN PutBuf(t, i, Append(Content(t, i), v))
RECURSIVE BufAddAll(_, _, _)
BufAddAll(s, i, q) == IF q = <<>> THEN s ELSE BufAddAll(BufAdd(s, i, Head(q)), i, Tail(q))

\* ---- operations: <<code, i, j, x, n, v>>, i and j are 1-based here (0-based in the driver)
Buf(s, op) ==
    LET o == op[1]  i == op[2]  j == op[3]  x == op[4]  n == op[5]  v == op[6]  q == Content(s, i) IN
    CASE o = 1 -> BufAdd(s, i, v)
      [] o = 2 -> BufAddAll(s, i, Content(s, j))
      [] o = 3 -> BufAdd(BufAdd(s, i, v), i, n)
      [] o = 4 -> IF InRange(q, x) THEN LET t == Prep(s, i, FALSE) IN PutBuf(t, i, SetSeq(q, x, v)) ELSE BufAdd(s, i, v)
      [] o = 5 -> IF InRange(q, x) THEN LET t == Prep(s, i, TRUE) IN PutBuf(t, i, InsSeq(q, x, v)) ELSE BufAdd(s, i, v)
      [] o = 6 -> IF InRange(q, x) THEN LET t == Prep(s, i, FALSE) IN PutBuf(t, i, RemSeq(q, x)) ELSE s
      [] o = 7 -> LET r == SliceSeq(Content(s, j), x, n) IN
                  IF r = <<>> THEN Point(s, i, 0) ELSE BufAddAll(Point(s, i, 0), i, r)
      [] o = 8 -> Point(s, i, 0)
      [] o = 9 -> Point(s, i, s.a[j])
      [] o = 10 -> s
      [] o = 11 -> IF s.a[i] = 0 THEN Alloc(s, i, <<>>, n)
                   ELSE IF n > s.b[s.a[i]].cap
                        THEN IF Refs(s, s.a[i]) = 1 THEN [s EXCEPT !.b[s.a[i]].cap = n]
                             ELSE LET m == CHOOSE m \in 1..(NA + 1) : Refs(s, m) = 0 IN
                                  [s EXCEPT !.a[i] = m, !.b[m] = [c |-> q, cap |-> n]]
                        ELSE s
      [] o = 12 -> s
      [] o = 13 -> s
      [] o = 14 -> IF InRange(q, x) THEN PutBuf(s, i, SetSeq(q, x, v)) ELSE s
      [] o = 15 -> IF InRange(q, n) THEN BufAdd(s, i, q[n + 1]) ELSE s
      [] o = 16 -> IF InRange(q, n)
                   THEN IF InRange(q, x) THEN LET t == Prep(s, i, TRUE) IN PutBuf(t, i, InsSeq(q, x, q[n + 1]))
                        ELSE BufAdd(s, i, q[n + 1])
                   ELSE s
      [] o = 17 -> BufAddAll(Point(s, i, 0), i, <<v, n, v>>)

Abs(g, op) ==
    LET o == op[1]  i == op[2]  j == op[3]  x == op[4]  n == op[5]  v == op[6]  q == g[i] IN
    CASE o = 1 -> [g EXCEPT ![i] = Append(q, v)]
      [] o = 2 -> [g EXCEPT ![i] = q \o g[j]]
      [] o = 3 -> [g EXCEPT ![i] = q \o <<v, n>>]
      [] o = 4 -> [g EXCEPT ![i] = SetSeq(q, x, v)]
      [] o = 5 -> [g EXCEPT ![i] = InsSeq(q, x, v)]
      [] o = 6 -> [g EXCEPT ![i] = RemSeq(q, x)]
      [] o = 7 -> [g EXCEPT ![i] = SliceSeq(g[j], x, n)]
      [] o = 8 -> [g EXCEPT ![i] = <<>>]
      [] o = 9 -> [g EXCEPT ![i] = g[j]]
      [] o = 14 -> IF InRange(q, x) THEN [g EXCEPT ![i] = SetSeq(q, x, v)] ELSE g
      [] o = 15 -> IF InRange(q, n) THEN [g EXCEPT ![i] = Append(q, q[n + 1])] ELSE g
      [] o = 16 -> IF InRange(q, n) THEN [g EXCEPT ![i] = InsSeq(q, x, q[n + 1])] ELSE g
      [] o = 17 -> [g EXCEPT ![i] = <<v, n, v>>]
      [] OTHER -> g

\* the value an operation answers with (0 when it answers nothing)
Ret(g, op) ==
    CASE op[1] = 12 -> FindSeq(g[op[2]], op[6])
      [] op[1] = 10 -> Len(g[op[3]]) + 1        \* length of a modified temporary copy
      [] op[1] = 13 -> Len(g[op[3]]) * 11
      [] OTHER -> 0

AApply(s, op) == [Buf(s, op) EXCEPT !.g = Abs(s.g, op), !.ret = Ret(s.g, op)]
AObs(s) == <<s.ret, s.g>>

XS(s, i) == (0 - 1)..Len(s.g[i])
AOps(s) ==
    {<<1, i, 1, 0, 0, v>> : i \in AIdx, v \in Vals} \cup
    {<<2, i, j, 0, 0, 0>> : i \in AIdx, j \in AIdx} \cup
    {<<3, i, 1, 0, 1, v>> : i \in AIdx, v \in Vals} \cup
    UNION {{<<o, i, 1, x, 0, v>> : o \in {4, 5}, x \in XS(s, i), v \in Vals} : i \in AIdx} \cup
    UNION {{<<6, i, 1, x, 0, 0>> : x \in XS(s, i)} : i \in AIdx} \cup
    UNION {{<<7, i, j, x, n, 0>> : i \in AIdx, x \in 0..Len(s.g[j]), n \in 0..2} : j \in AIdx} \cup
    {<<8, i, 1, 0, 0, 0>> : i \in AIdx} \cup
    {<<9, i, j, 0, 0, 0>> : i \in AIdx, j \in AIdx} \cup
    {<<o, 1, j, 0, 0, 1>> : j \in AIdx, o \in {10, 13}} \cup
    {<<11, i, 1, 0, n, 0>> : i \in AIdx, n \in {1, 4}} \cup
    {<<12, i, 1, 0, 0, v>> : i \in AIdx, v \in Vals} \cup
    UNION {{<<14, i, 1, x, 0, v>> : x \in 0..(Len(s.g[i]) - 1), v \in Vals} :
           i \in {i \in AIdx : s.a[i] /= 0 /\ Refs(s, s.a[i]) = 1}} \cup
    UNION {{<<15, i, 1, 0, n, 0>> : n \in 0..(Len(s.g[i]) - 1)} : i \in AIdx} \cup
    UNION {{<<16, i, 1, x, n, 0>> : x \in XS(s, i), n \in 0..(Len(s.g[i]) - 1)} : i \in AIdx} \cup
    {<<17, i, 1, 0, 1, v>> : i \in AIdx, v \in Vals}
AWithin(s) == \A i \in AIdx : Len(s.g[i]) <= MaxSeq
AShape(s) == <<s.g, s.a, [n \in DOMAIN s.b |-> s.b[n].cap]>>
Refines(s) == \A i \in AIdx : Content(s, i) = s.g[i]
CapOK(s) == \A n \in DOMAIN s.b : Len(s.b[n].c) <= s.b[n].cap
=============================================================================
