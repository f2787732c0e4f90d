----------------------------- MODULE MapSpec -----------------------------
(* Srl.Map: NM map variables, each an insertion ordered finite map, with or        *)
(* without the sorted search index of Srl.ArrayIndex.                              *)
(*   g  : the sequences of <<key, value>> a user sees                              *)
(*   ix : the index, positions sorted by key, searched with the library's binary   *)
(*        search (<<>> when the map has none, see hx)                              *)
(*   kb, vb, ib : who shares the key, value and index buffers with whom (0: no     *)
(*        buffer, otherwise the least map of the sharing group)                    *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS NM, Keys, Vals, MaxSeq
MIdx == 1..NM
Zero == [i \in MIdx |-> 0]
MInit == [g |-> [i \in MIdx |-> <<>>], ix |-> [i \in MIdx |-> <<>>], hx |-> [i \in MIdx |-> FALSE],
          kb |-> Zero, vb |-> Zero, ib |-> Zero, ret |-> 0]

\* ---- sharing groups
Canon(f) == [i \in MIdx |-> IF f[i] = 0 THEN 0
                            ELSE CHOOSE j \in MIdx : f[j] = f[i] /\ \A m \in MIdx : f[m] = f[i] => j <= m]
Own(f, i) == Canon([f EXCEPT ![i] = NM + 1])         \* i gets a buffer of its own
None(f, i) == Canon([f EXCEPT ![i] = 0])
Join(f, i, j) == Canon([f EXCEPT ![i] = f[j]])
Shared(f, i) == f[i] /= 0 /\ \E j \in MIdx \ {i} : f[j] = f[i]

\* ---- sequences
Min2(x, y) == IF x < y THEN x ELSE y
KeysOf(q) == [n \in DOMAIN q |-> q[n][1]]
InsAt(q, x, e) == SubSeq(q, 1, x) \o <<e>> \o SubSeq(q, x + 1, Len(q))
RemAt(q, x) == SubSeq(q, 1, x) \o SubSeq(q, x + 2, Len(q))
Pos(q, k) == IF \E n \in DOMAIN q : q[n][1] = k THEN (CHOOSE n \in DOMAIN q : q[n][1] = k) - 1 ELSE 0 - 1

\* ---- the index of Srl.ArrayIndex
RECURSIVE Bin(_, _, _, _, _)
Bin(ks, ix, k, lo, hi) ==
    IF lo = hi - 1 THEN <<hi, FALSE>>
    ELSE LET mid == (lo + hi) \div 2  m == ks[ix[mid + 1] + 1] IN
         IF k = m THEN <<mid, TRUE>>
         ELSE IF k < m THEN Bin(ks, ix, k, lo, mid) ELSE Bin(ks, ix, k, mid, hi)
Search(ks, ix, k) ==
    IF ix = <<>> THEN <<0, FALSE>>
    ELSE LET f == ks[ix[1] + 1]  l == ks[ix[Len(ix)] + 1] IN
         IF k < f THEN <<0, FALSE>> ELSE IF k = f THEN <<0, TRUE>>
         ELSE IF k > l THEN <<Len(ix), FALSE>> ELSE IF k = l THEN <<Len(ix) - 1, TRUE>>
         ELSE Bin(ks, ix, k, 0, Len(ix) - 1)
IxFind(ks, ix, k) == LET r == Search(ks, ix, k) IN IF r[2] THEN ix[r[1] + 1] ELSE 0 - 1
IxInsert(ks, ix, x) ==
    LET up == [n \in DOMAIN ix |-> IF ix[n] >= x THEN ix[n] + 1 ELSE ix[n]] IN
    InsAt(up, Search(ks, up, ks[x + 1])[1], x)
IxRemove(ix, x) ==
    LET keep == SelectSeq(ix, LAMBDA p : p /= x) IN
    [n \in DOMAIN keep |-> IF keep[n] > x THEN keep[n] - 1 ELSE keep[n]]
RECURSIVE IxBuild(_, _)
IxBuild(ks, ix) == IF Len(ix) = Len(ks) THEN ix ELSE IxBuild(ks, IxInsert(ks, ix, Len(ix)))

FindOf(s, i, k) == IF s.hx[i] THEN IxFind(KeysOf(s.g[i]), s.ix[i], k) ELSE Pos(s.g[i], k)

\* ---- steps
OwnIx(s, i) == IF s.hx[i] THEN Own(s.ib, i) ELSE s.ib
PutNew(s, i, x, k, v) ==
    LET q == InsAt(s.g[i], x, <<k, v>>) IN
    [s EXCEPT !.g[i] = q, !.kb = Own(s.kb, i), !.vb = Own(s.vb, i), !.ib = OwnIx(s, i),
              !.ix[i] = IF s.hx[i] THEN IxInsert(KeysOf(q), s.ix[i], x) ELSE <<>>]
PutAt(s, i, x, v) == [s EXCEPT !.g[i][x + 1][2] = v, !.vb = Own(s.vb, i)]
RemoveAt(s, i, x) ==
    [s EXCEPT !.g[i] = RemAt(s.g[i], x), !.kb = Own(s.kb, i), !.vb = Own(s.vb, i), !.ib = OwnIx(s, i),
              !.ix[i] = IF s.hx[i] THEN IxRemove(s.ix[i], x) ELSE <<>>]
Empty(s, i, hx) == [s EXCEPT !.g[i] = <<>>, !.kb = None(s.kb, i), !.vb = None(s.vb, i), !.ib = None(s.ib, i),
                             !.ix[i] = <<>>, !.hx[i] = hx]
Copy(s, i, j, hx) ==
    [s EXCEPT !.g[i] = s.g[j], !.kb = Join(s.kb, i, j), !.vb = Join(s.vb, i, j), !.hx[i] = hx,
              !.ix[i] = IF ~hx THEN <<>> ELSE IF s.hx[j] THEN s.ix[j] ELSE IxBuild(KeysOf(s.g[j]), <<>>),
              !.ib = IF ~hx \/ s.g[j] = <<>> THEN None(s.ib, i)
                     ELSE IF s.hx[j] THEN Join(s.ib, i, j) ELSE Own(s.ib, i)]

\* op: <<code, i, j, x, k, v>>
MStep(s, op) ==
    LET o == op[1]  i == op[2]  j == op[3]  x == op[4]  k == op[5]  v == op[6]  p == FindOf(s, i, k)  l == Len(s.g[i]) IN
    CASE o = 1 -> IF p >= 0 THEN PutAt(s, i, p, v) ELSE PutNew(s, i, l, k, v)
      [] o = 2 -> IF p >= 0 THEN [s EXCEPT !.g[i][p + 1][2] = v] ELSE PutNew(s, i, l, k, v)
      [] o = 3 -> IF p >= 0 THEN s ELSE PutNew(s, i, l, k, 0)
      [] o = 4 -> PutAt(s, i, x, v)
      [] o = 5 -> PutNew(s, i, Min2(x, l), k, v)
      [] o = 6 -> IF p >= 0 THEN RemoveAt(s, i, p) ELSE s
      [] o = 7 -> RemoveAt(s, i, x)
      [] o = 8 -> Empty(s, i, s.hx[i])
      [] o = 9 -> Copy(s, i, j, s.hx[i])
      [] o = 10 -> Copy(s, i, j, FALSE)
      [] o = 11 -> Copy(s, i, j, x = 1)
      [] o = 13 -> Empty(s, i, x = 1)
      [] OTHER -> s

\* ---- the abstract ordered map, independent of buffers and index
Upd(q, k, v) == IF Pos(q, k) >= 0 THEN [q EXCEPT ![Pos(q, k) + 1][2] = v] ELSE Append(q, <<k, v>>)
Val(q, k) == IF Pos(q, k) >= 0 THEN q[Pos(q, k) + 1][2] ELSE 0
AbsMap(g, op) ==
    LET o == op[1]  i == op[2]  j == op[3]  x == op[4]  k == op[5]  v == op[6]  q == g[i] IN
    CASE o \in {1, 2} -> Upd(q, k, v)
      [] o = 3 -> IF Pos(q, k) >= 0 THEN q ELSE Append(q, <<k, 0>>)
      [] o = 4 -> [q EXCEPT ![x + 1][2] = v]
      [] o = 5 -> InsAt(q, Min2(x, Len(q)), <<k, v>>)
      [] o = 6 -> IF Pos(q, k) >= 0 THEN RemAt(q, Pos(q, k)) ELSE q
      [] o = 7 -> RemAt(q, x)
      [] o \in {8, 13} -> <<>>
      [] o \in {9, 10, 11} -> g[j]
      [] OTHER -> q
MRet(g, op) ==
    LET o == op[1]  i == op[2]  j == op[3]  k == op[5] IN
    CASE o = 3 -> Val(g[i], k)
      [] o = 6 -> IF Pos(g[i], k) >= 0 THEN 1 ELSE 0
      [] o = 12 -> Pos(g[i], k)
      [] o = 14 -> LET n == Len(Upd(g[j], k, 9)) IN IF n > 1 THEN n - 1 ELSE n
      [] OTHER -> 0
\* "ok" records whether the buffer-and-index level agrees with the abstract map on this step
MApply(s, op) == [MStep(s, op) EXCEPT !.ret = MRet(s.g, op)]
Agrees(s, op) == LET t == MStep(s, op) IN
    /\ t.g = [s.g EXCEPT ![op[2]] = AbsMap(s.g, op)]
    /\ op[1] \in {3, 6, 12} => FindOf(s, op[2], op[5]) = Pos(s.g[op[2]], op[5])
MObs(s) == <<s.ret, s.g>>

Has(s, i, k) == Pos(s.g[i], k) >= 0
MOps(s) ==
    {<<1, i, 1, 0, k, v>> : i \in MIdx, k \in Keys, v \in Vals} \cup
    UNION {{<<2, i, 1, 0, k, v>> : k \in {k \in Keys : ~Shared(s.vb, i) \/ ~Has(s, i, k)}, v \in Vals} : i \in MIdx} \cup
    {<<3, i, 1, 0, k, 0>> : i \in MIdx, k \in Keys} \cup
    UNION {{<<4, i, 1, x, 0, v>> : x \in 0..(Len(s.g[i]) - 1), v \in Vals} : i \in MIdx} \cup
    UNION {{<<5, i, 1, x, k, v>> : x \in 0..Len(s.g[i]), k \in {k \in Keys : ~Has(s, i, k)}, v \in Vals} : i \in MIdx} \cup
    {<<6, i, 1, 0, k, 0>> : i \in MIdx, k \in Keys} \cup
    UNION {{<<7, i, 1, x, 0, 0>> : x \in 0..(Len(s.g[i]) - 1)} : i \in MIdx} \cup
    {<<8, i, 1, 0, 0, 0>> : i \in MIdx} \cup
    {<<o, i, j, 0, 0, 0>> : o \in {9, 10}, i \in MIdx, j \in MIdx} \cup
    {<<11, i, j, x, 0, 0>> : i \in MIdx, j \in MIdx, x \in {0, 1}} \cup
    {<<12, i, 1, 0, k, 0>> : i \in MIdx, k \in Keys} \cup
    {<<13, i, 1, x, 0, 0>> : i \in MIdx, x \in {0, 1}} \cup
    {<<14, 1, j, 0, k, 0>> : j \in MIdx, k \in Keys}
MWithin(s) == \A i \in MIdx : Len(s.g[i]) <= MaxSeq
MShape(s) == [s EXCEPT !.ret = 0]

IndexOK(s) == \A i \in MIdx : s.hx[i] =>
    /\ Len(s.ix[i]) = Len(s.g[i])
    /\ {s.ix[i][n] : n \in DOMAIN s.ix[i]} = 0..(Len(s.g[i]) - 1)
    /\ \A n \in 1..(Len(s.ix[i]) - 1) : s.g[i][s.ix[i][n] + 1][1] < s.g[i][s.ix[i][n + 1] + 1][1]
FindOK(s) == \A i \in MIdx, k \in Keys : FindOf(s, i, k) = Pos(s.g[i], k)
KeysOnce(s) == \A i \in MIdx : \A m, n \in DOMAIN s.g[i] : m /= n => s.g[i][m][1] /= s.g[i][n][1]
=============================================================================
