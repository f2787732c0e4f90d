----------------------------- MODULE StrSpec -----------------------------
(* Srl.String (and WString): NS string variables, and NB StringBuilders, over       *)
(* reference counted buffers.                                                       *)
(*   g  : character sequences, strings 1..NS then builders NS+1..NS+NB              *)
(*   t  : who shares the buffer with whom (0: no buffer, else least of the group)   *)
(*   bs : buffer size a builder believes to have;  gr : its growth unit             *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS NS, NB, Lits, MaxSeq, Wide

LitTable == <<
    <<>>,
    <<97>>,
    <<98>>,
    <<97, 98>>,
    <<98, 97>>,
    <<32>>,
    <<65, 32, 98>>,
    <<97, 97, 98>>,
    <<49, 50>>,
    <<45, 51>>,
    <<10, 9>>,
    <<97, 97>>,
    <<90, 122, 64, 91, 96, 123>>
    >>
IntTable == <<
    <<48>>,
    <<55>>,
    <<45, 49, 48>>,
    <<57, 50, 50, 51, 51, 55, 50, 48, 51, 54, 56, 53, 52, 55, 55, 53, 56, 48, 55>>,
    <<45, 57, 50, 50, 51, 51, 55, 50, 48, 51, 54, 56, 53, 52, 55, 55, 53, 56, 48, 56>>,
    <<45, 57, 50, 50, 51, 51, 55, 50, 48, 51, 54, 56, 53, 52, 55, 55, 53, 56, 48, 55>>,
    <<52, 50, 57, 52, 57, 54, 55, 50, 57, 54>>
    >>
FloatTable == <<
    <<49, 46, 53, 48, 48, 48, 48, 48>>,
    <<48, 46, 50, 53, 48, 48, 48, 48>>,
    <<45, 50, 46, 55, 53, 48, 48, 48, 48>>,
    <<49, 46, 48, 48, 48, 48, 48, 48>>,
    <<48, 46, 48, 48, 48, 48, 48, 48>>,
    <<49, 48, 48, 48, 48, 48, 48, 46, 53, 48, 48, 48, 48, 48>>,
    <<45, 55, 46, 48, 48, 48, 48, 48, 48>>,
    <<52, 46, 48, 48, 48, 48, 48, 48>>
    >>
Lit(l) == LitTable[l]

SIdx == 1..NS
BIdx == (NS + 1)..(NS + NB)
VIdx == 1..(NS + NB)
SInit == [g |-> [i \in VIdx |-> <<>>], t |-> [i \in VIdx |-> IF i \in BIdx THEN i ELSE 0],
          bs |-> [i \in VIdx |-> 0], gr |-> [i \in VIdx |-> 4], ret |-> 0]

\* ---- sharing groups
Canon(f) == [i \in VIdx |-> IF f[i] = 0 THEN 0
                            ELSE CHOOSE j \in VIdx : f[j] = f[i] /\ \A m \in VIdx : f[m] = f[i] => j <= m]
Own(f, i) == Canon([f EXCEPT ![i] = NS + NB + 1])
None(f, i) == Canon([f EXCEPT ![i] = 0])
Join(f, i, j) == Canon([f EXCEPT ![i] = f[j]])
Alone(f, i) == f[i] /= 0 /\ \A j \in VIdx \ {i} : f[j] /= f[i]

\* ---- character sequences
Min2(x, y) == IF x < y THEN x ELSE y
IsAt(q, p, x) == x + Len(p) <= Len(q) /\ SubSeq(q, x + 1, x + Len(p)) = p
FindFrom(q, p, x) == LET c == {y \in x..Len(q) : IsAt(q, p, y)} IN
                     IF c = {} THEN 0 - 1 ELSE CHOOSE y \in c : \A z \in c : y <= z
FindLast(q, p) == IF p = <<>> THEN 0
                  ELSE LET c == {y \in 0..Len(q) : IsAt(q, p, y)} IN
                       IF c = {} THEN 0 - 1 ELSE CHOOSE y \in c : \A z \in c : y >= z
Slice(q, x, n) == IF x >= Len(q) THEN <<>> ELSE SubSeq(q, x + 1, Min2(Len(q), x + n))
Space(c) == c \in {32, 10, 13, 9}
RECURSIVE TrimL(_), TrimR(_), Cmp(_, _), Replace(_, _, _), Split(_, _), Merge(_, _)
TrimL(q) == IF q /= <<>> /\ Space(Head(q)) THEN TrimL(Tail(q)) ELSE q
TrimR(q) == IF q /= <<>> /\ Space(q[Len(q)]) THEN TrimR(SubSeq(q, 1, Len(q) - 1)) ELSE q
Trim(q, n) == IF n = 0 THEN TrimL(TrimR(q)) ELSE IF n = 1 THEN TrimL(q) ELSE TrimR(q)
Cmp(p, q) == IF p = <<>> /\ q = <<>> THEN 0 ELSE IF p = <<>> THEN 0 - 1 ELSE IF q = <<>> THEN 1
             ELSE IF Head(p) < Head(q) THEN 0 - 1 ELSE IF Head(p) > Head(q) THEN 1 ELSE Cmp(Tail(p), Tail(q))
CmpN(p, q, n) == Cmp(SubSeq(p, 1, Min2(n, Len(p))), SubSeq(q, 1, Min2(n, Len(q))))
Replace(q, m, r) == LET x == FindFrom(q, m, 0) IN
    IF x < 0 THEN q ELSE SubSeq(q, 1, x) \o r \o Replace(SubSeq(q, x + Len(m) + 1, Len(q)), m, r)
Split(q, m) == LET x == FindFrom(q, m, 0) IN
    IF x < 0 THEN <<q>> ELSE <<SubSeq(q, 1, x)>> \o Split(SubSeq(q, x + Len(m) + 1, Len(q)), m)
Merge(ps, sep) == IF Len(ps) = 1 THEN ps[1] ELSE ps[1] \o sep \o Merge(Tail(ps), sep)
Upper(q) == [n \in DOMAIN q |-> IF q[n] >= 97 /\ q[n] <= 122 THEN q[n] - 32 ELSE q[n]]
Lower(q) == [n \in DOMAIN q |-> IF q[n] >= 65 /\ q[n] <= 90 THEN q[n] + 32 ELSE q[n]]
RECURSIVE Digits(_), ParseNat(_, _)
Digits(n) == IF n < 10 THEN <<48 + n>> ELSE Digits(n \div 10) \o <<48 + (n % 10)>>
Dec(n) == IF n < 0 THEN <<45>> \o Digits(0 - n) ELSE Digits(n)
IsDigit(c) == c >= 48 /\ c <= 57
ParseNat(q, acc) == IF q = <<>> \/ ~IsDigit(Head(q)) THEN acc ELSE ParseNat(Tail(q), acc * 10 + Head(q) - 48)
ParseInt(q) == IF q /= <<>> /\ Head(q) = 45 THEN 0 - ParseNat(Tail(q), 0) ELSE ParseNat(q, 0)
B2I(b) == IF b THEN 1 ELSE 0

\* ---- steps; op: <<code, i, j, x, n, l>>
New(s, i, q) == [s EXCEPT !.g[i] = q, !.t = Own(s.t, i)]             \* i gets a buffer of its own
App(s, i, q) == IF q = <<>> THEN s ELSE New(s, i, s.g[i] \o q)
\* results of functions that build a string by appending: no buffer when they append nothing
Res(s, i, q) == IF q = <<>> THEN [s EXCEPT !.g[i] = q, !.t = None(s.t, i)] ELSE New(s, i, q)
Grow(s, b, newLen) == IF newLen <= s.bs[b] THEN s.bs[b]
    ELSE LET need == newLen - s.bs[b]  r == need % s.gr[b] IN s.bs[b] + need + (IF r = 0 THEN 0 ELSE s.gr[b] - r)
BApp(s, b, q) == IF q = <<>> THEN s
    ELSE [s EXCEPT !.g[b] = @ \o q, !.t = Own(s.t, b), !.bs[b] = Grow(s, b, Len(s.g[b]) + Len(q))]

SStep(s, op) ==
    LET o == op[1]  i == op[2]  j == op[3]  x == op[4]  n == op[5]  l == op[6]  p == s.g[i]  q == s.g[j] IN
    CASE o = 1 -> New(s, i, Lit(l))
      [] o = 2 -> [s EXCEPT !.g[i] = q, !.t = Join(s.t, i, j)]
      [] o = 3 -> App(s, i, Lit(l))
      [] o = 4 -> App(s, i, q)
      [] o = 5 -> New(s, i, q \o Lit(l))
      [] o = 6 -> IF x >= Len(q) THEN Res(s, i, <<>>) ELSE New(s, i, Slice(q, x, n))
      [] o = 7 -> Res(s, i, Trim(q, n))
      [] o = 8 -> Res(s, i, Replace(q, Lit(l), Lit(n)))
      [] o = 9 -> Res(s, i, <<>>)
      [] o = 13 -> New(s, i, IF n = 0 THEN Upper(q) ELSE Lower(q))
      [] o = 14 -> App(s, i, <<x>>)
      [] o = 15 -> App(s, i, IntTable[x])
      [] o = 17 -> Res(s, i, Merge(Split(q, Lit(l)), Lit(n)))
      [] o = 18 -> New(s, i, Slice(q, x, n))
      [] o = 19 -> App(s, i, Slice(q, x, n))
      [] o = 20 -> New(s, i, q)
      [] o = 25 -> New(s, i, p)
      [] o = 28 -> New(s, i, <<120>> \o q \o Dec(x) \o <<99, 37>>)
      [] o = 29 -> App(s, i, FloatTable[x])
      [] o = 30 -> BApp(s, j, Lit(l))
      [] o = 31 -> BApp(s, j, p)
      [] o = 32 -> [s EXCEPT !.g[i] = q, !.t = Join(s.t, i, j)]
      [] o = 34 -> [s EXCEPT !.g[j] = <<>>, !.t = Own(s.t, j)]
      [] o = 35 -> IF p = <<>> THEN [s EXCEPT !.g[j] = <<>>, !.t = Own(s.t, j), !.bs[j] = n, !.gr[j] = n]
                   ELSE [s EXCEPT !.g[j] = p, !.t = Join(s.t, j, i), !.bs[j] = Len(p), !.gr[j] = n]
      [] o = 36 -> BApp(s, j, IntTable[x])
      [] o = 37 -> BApp(s, j, <<x>>)
      [] o = 39 -> BApp(s, j, p \o <<45>> \o Dec(x) \o <<37, 99>>)
      [] o = 40 -> BApp(s, j, q)
      [] o = 41 -> [s EXCEPT !.g[j] = <<>>, !.t = Own(s.t, j), !.bs[j] = x, !.gr[j] = n]
      [] o = 42 -> BApp(s, j, FloatTable[x])
      [] o = 43 -> BApp(s, j, Slice(p, x, n))
      [] OTHER -> s
SRet(s, op) ==
    LET o == op[1]  i == op[2]  j == op[3]  x == op[4]  n == op[5]  l == op[6]  p == s.g[i]  q == s.g[j]  c == Cmp(p, q) IN
    CASE o = 10 -> FindFrom(p, Lit(l), x)
      [] o = 11 -> FindLast(p, Lit(l))
      [] o = 12 -> c
      [] o = 16 -> IF x < Len(p) THEN p[x + 1] ELSE 0
      [] o = 17 -> Len(Split(q, Lit(l)))
      [] o = 21 -> CmpN(p, q, n)
      [] o = 22 -> Len(q) + 2 * Len(Lit(l))
      [] o = 23 -> FindFrom(p, <<x>>, n)
      [] o = 24 -> FindLast(p, <<x>>)
      [] o = 26 -> B2I(c = 0) + 2 * B2I(c /= 0) + 4 * B2I(c > 0) + 8 * B2I(c < 0) + 16 * B2I(c >= 0) + 32 * B2I(c <= 0)
      [] o = 27 -> ParseInt(p)
      [] o = 38 -> Len(q)
      [] OTHER -> 0
SApply(s, op) == [SStep(s, op) EXCEPT !.ret = SRet(s, op)]
SObs(s) == <<s.ret, s.g>>

Chars == {97, 98, 32}
NonEmpty == {l \in Lits : Lit(l) /= <<>>}
SOps(s) ==
    {<<1, i, 1, 0, 0, l>> : i \in SIdx, l \in Lits} \cup
    {<<o, i, j, 0, 0, 0>> : o \in {2, 4, 12, 20, 26}, i \in SIdx, j \in SIdx} \cup
    {<<3, i, 1, 0, 0, l>> : i \in SIdx, l \in Lits} \cup
    {<<5, i, j, 0, 0, l>> : i \in SIdx, j \in SIdx, l \in Lits} \cup
    UNION {{<<6, i, j, x, n, 0>> : i \in SIdx, x \in 0..(Len(s.g[j]) + 1), n \in 0..2} : j \in SIdx} \cup
    {<<7, i, j, 0, n, 0>> : i \in SIdx, j \in SIdx, n \in 0..2} \cup
    {<<o, i, j, 0, n, l>> : o \in {8, 17}, i \in SIdx, j \in SIdx, n \in Lits, l \in NonEmpty} \cup
    {<<9, i, 1, 0, 0, 0>> : i \in SIdx} \cup
    UNION {{<<10, i, 1, x, 0, l>> : x \in 0..(Len(s.g[i]) + 1), l \in Lits} : i \in SIdx} \cup
    {<<11, i, 1, 0, 0, l>> : i \in SIdx, l \in Lits} \cup
    {<<13, i, j, 0, n, 0>> : i \in SIdx, j \in SIdx, n \in 0..(IF Wide \/ NB > 0 THEN 0 - 1 ELSE 1)} \cup
    {<<14, i, 1, 97, 0, 0>> : i \in SIdx} \cup
    UNION {{<<16, i, 1, x, 0, 0>> : x \in 0..Len(s.g[i])} : i \in SIdx} \cup
    UNION {{<<o, i, j, x, n, 0>> : o \in {18, 19}, i \in SIdx, x \in 0..Len(s.g[j]), n \in 0..1} : j \in SIdx} \cup
    {<<21, i, j, 0, n, 0>> : i \in SIdx, j \in SIdx, n \in 0..2} \cup
    {<<22, 1, j, 0, 0, l>> : j \in SIdx, l \in Lits} \cup
    UNION {{<<23, i, 1, x, n, 0>> : x \in Chars, n \in 0..Len(s.g[i])} : i \in SIdx} \cup
    {<<24, i, 1, x, 0, 0>> : i \in SIdx, x \in Chars} \cup
    {<<27, i, 1, 0, 0, 0>> : i \in {i \in SIdx : ~Wide}} \cup
    UNION {{<<25, i, 1, Len(s.g[i]) + x, 0, 0>> : x \in {0, 3}} : i \in {i \in SIdx : s.g[i] /= <<>>}} \cup
    {<<30, 1, j, 0, 0, l>> : j \in BIdx, l \in Lits} \cup
    {<<o, i, j, 0, 0, 0>> : o \in {31, 32}, i \in SIdx, j \in BIdx} \cup
    {<<o, 1, j, 0, 0, 0>> : o \in {34, 38, 40}, j \in BIdx} \cup
    {<<35, i, j, 0, n, 0>> : i \in SIdx, j \in BIdx, n \in {2, 4}} \cup
    {<<37, 1, j, 98, 0, 0>> : j \in BIdx} \cup
    {<<41, 1, j, x, 3, 0>> : x \in {0, 2}, j \in BIdx}
SWithin(s) == \A i \in VIdx : Len(s.g[i]) <= MaxSeq
SShape(s) == [s EXCEPT !.ret = 0]
\* a builder's content always fits the buffer it believes to have
Fits(s) == \A b \in BIdx : Len(s.g[b]) <= s.bs[b]
=============================================================================
