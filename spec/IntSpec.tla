------------------------------ MODULE IntSpec ------------------------------
(* Typed integers of the language: types, values as bit tuples, the result type of every operator and its
   value.  A type is [s |-> signed, n |-> declared bits] with n = 0 the architecture's width (64).  A value of a
   type is a tuple of Width(t) bits, least significant first; TLC's own integers have 32 bits, so every
   operation is defined on bits and SmallLaws relates the definitions to native integers. *)
EXTENDS Integers, Sequences, SequencesExt, TLC

P2 == <<1, 2, 4, 8, 16, 32, 64, 128, 256, 512, 1024, 2048, 4096, 8192, 16384, 32768>>
Width(t) == IF t.n = 0 THEN 64 ELSE t.n
Declared == {0, 1, 8, 16, 32, 64}

\* ---- bit tuples
Idx(n) == [i \in 1..n |-> i]
Limbs(l, n) == TLCEval([i \in 1..n |-> (l[((i - 1) \div 16) + 1] \div P2[((i - 1) % 16) + 1]) % 2])
OfLimbs(b) == [k \in 1..4 |-> FoldLeft(LAMBDA acc, i: acc + b[(k - 1) * 16 + i] * P2[i], 0, Idx(16))]
Const(c, n) == TLCEval([i \in 1..n |-> c])
One(n) == TLCEval([i \in 1..n |-> IF i = 1 THEN 1 ELSE 0])
NotB(a) == TLCEval([i \in 1..Len(a) |-> 1 - a[i]])
AndB(a, b) == TLCEval([i \in 1..Len(a) |-> a[i] * b[i]])
OrB(a, b) == TLCEval([i \in 1..Len(a) |-> IF a[i] + b[i] > 0 THEN 1 ELSE 0])
XorB(a, b) == TLCEval([i \in 1..Len(a) |-> (a[i] + b[i]) % 2])
AddC(a, b, c0) ==   \* a + b + c0 reduced to the width, and the carry out
  FoldLeft(LAMBDA acc, i: LET s == a[i] + b[i] + acc.c IN [c |-> s \div 2, r |-> Append(acc.r, s % 2)],
           [c |-> c0, r |-> <<>>], Idx(Len(a)))
Add(a, b) == AddC(a, b, 0).r
Sub(a, b) == AddC(a, NotB(b), 1).r
Neg(a) == AddC(NotB(a), Const(0, Len(a)), 1).r
GeU(a, b) == AddC(a, NotB(b), 1).c = 1
IsZero(a) == \A i \in 1..Len(a): a[i] = 0
SignBit(a) == a[Len(a)] = 1
ShlB(a, k) == TLCEval([i \in 1..Len(a) |-> IF i > k THEN a[i - k] ELSE 0])
ShrB(a, k, fill) == TLCEval([i \in 1..Len(a) |-> IF i + k <= Len(a) THEN a[i + k] ELSE fill])
Mul(a, b) == FoldLeft(LAMBDA acc, i: IF b[i] = 0 THEN acc ELSE Add(acc, ShlB(a, i - 1)), Const(0, Len(a)), Idx(Len(a)))
\* unsigned quotient and remainder, schoolbook from the top bit
DivModU(a, b) ==
  LET n == Len(a)
      ext == Append(b, 0)
  IN FoldLeft(LAMBDA acc, i:
        LET r1 == TLCEval([j \in 1..n + 1 |-> IF j = 1 THEN a[n + 1 - i] ELSE acc.r[j - 1]])
            d == AddC(r1, NotB(ext), 1)
        IN IF d.c = 1 THEN [q |-> TLCEval([acc.q EXCEPT ![n + 1 - i] = 1]), r |-> d.r] ELSE [q |-> acc.q, r |-> r1],
      [q |-> Const(0, n), r |-> Const(0, n + 1)], Idx(n))
Abs(a) == IF SignBit(a) THEN Neg(a) ELSE a
DivS(a, b) == LET q == DivModU(Abs(a), Abs(b)).q IN IF SignBit(a) # SignBit(b) THEN Neg(q) ELSE q
RemS(a, b) == LET r == SubSeq(DivModU(Abs(a), Abs(b)).r, 1, Len(a)) IN IF SignBit(a) THEN Neg(r) ELSE r
LtU(a, b) == ~GeU(a, b)
LtS(a, b) == IF SignBit(a) # SignBit(b) THEN SignBit(a) ELSE LtU(a, b)
SmallNat(a) == FoldLeft(LAMBDA acc, i: IF acc > 1000 THEN acc ELSE 2 * acc + a[Len(a) + 1 - i], 0, Idx(Len(a)))

\* ---- the types operators work in
MaxN(x, y) == IF x >= y THEN x ELSE y
IsInt(t) == t.n \in Declared
Joint(t1, t2) == LET m == MaxN(t1.n, t2.n) IN IF (t1.n = 0 \/ t2.n = 0) /\ m <= 32 THEN 0 ELSE m
ArithType(t1, t2) == LET m == Joint(t1, t2)
                     IN [s |-> t1.s \/ t2.s, n |-> IF m = 0 THEN 0 ELSE MaxN(m, 32)]
BitType(t1, t2) == [s |-> t1.s \/ t2.s, n |-> Joint(t1, t2)]
\* a mixed comparison is only defined when the unsigned operand is strictly narrower than the joint type
Narrower(t, m) == t.n # 0 /\ (IF m = 0 THEN t.n < 32 ELSE t.n < m)
CmpDefined(t1, t2) == t1.s = t2.s \/ Narrower(IF t1.s THEN t2 ELSE t1, Joint(t1, t2))
CmpType(t1, t2) == [s |-> t1.s \/ t2.s, n |-> Joint(t1, t2)]
BoolType == [s |-> FALSE, n |-> 1]

\* ---- conversion: the source's type decides the extension
Convert(a, t, u) == LET n == Width(u) IN
  TLCEval([i \in 1..n |-> IF i <= Len(a) THEN a[i] ELSE IF t.s THEN a[Len(a)] ELSE 0])
Castable(t, u) == t.n = 1 \/ u.n # 1        \* only a one-bit value converts to a one-bit type

ArithOps == {"+", "-", "*", "/", "%"}
BitOps == {"&", "|", "$"}
ShiftOps == {"<<", ">>"}
CmpOps == {"==", "!=", "<", "<=", ">", ">="}
BinOps == ArithOps \cup BitOps \cup ShiftOps \cup CmpOps

BinDefined(op, t1, t2) == op \in CmpOps => CmpDefined(t1, t2)
BinType(op, t1, t2) == CASE op \in ArithOps -> ArithType(t1, t2)
                         [] op \in BitOps -> BitType(t1, t2)
                         [] op \in ShiftOps -> t1
                         [] op \in CmpOps -> BoolType
\* The mathematical result exists: division by zero, the one overflowing quotient, out-of-range shift counts
\* and signed sums, differences and products that the result type cannot hold (the compiler declares them
\* impossible to LLVM, as C does) are outside the domain.
SumFits(x, y, r) == SignBit(x) # SignBit(y) \/ SignBit(r) = SignBit(x)
MulFits(x, y) == LET n == Len(x)
                     w(v) == TLCEval([i \in 1..2 * n |-> IF i <= n THEN v[i] ELSE v[n]])
                     r == Mul(w(x), w(y))
                 IN \A i \in n + 1..2 * n: r[i] = r[n]
MinS(a) == SignBit(a) /\ \A i \in 1..Len(a) - 1: a[i] = 0
ArithInDomain(op, t, x, y) ==
  CASE op \in {"/", "%"} -> ~IsZero(y) /\ ~(t.s /\ MinS(x) /\ IsZero(NotB(y)))
    [] op = "+" -> t.s => SumFits(x, y, Add(x, y))
    [] op = "-" -> t.s => (SignBit(x) = SignBit(y) \/ SignBit(Sub(x, y)) = SignBit(x))
    [] op = "*" -> t.s => MulFits(x, y)
ShiftInDomain(t, y) == ~(t.s /\ SignBit(y)) /\ SmallNat(y) < Width(t)
Arith(op, t, x, y) == CASE op = "+" -> Add(x, y)
                        [] op = "-" -> Sub(x, y)
                        [] op = "*" -> Mul(x, y)
                        [] op = "/" -> IF t.s THEN DivS(x, y) ELSE DivModU(x, y).q
                        [] op = "%" -> IF t.s THEN RemS(x, y) ELSE SubSeq(DivModU(x, y).r, 1, Len(x))
Bitwise(op, x, y) == CASE op = "&" -> AndB(x, y) [] op = "|" -> OrB(x, y) [] op = "$" -> XorB(x, y)
Shift(op, t, x, y) == IF op = "<<" THEN ShlB(x, SmallNat(y))
                      ELSE ShrB(x, SmallNat(y), IF t.s /\ SignBit(x) THEN 1 ELSE 0)
Less(t, x, y) == IF t.s THEN LtS(x, y) ELSE LtU(x, y)
Compare(op, t, x, y) == LET r == CASE op = "==" -> x = y
                                   [] op = "!=" -> x # y
                                   [] op = "<" -> Less(t, x, y)
                                   [] op = "<=" -> ~Less(t, y, x)
                                   [] op = ">" -> Less(t, y, x)
                                   [] op = ">=" -> ~Less(t, x, y)
                        IN <<IF r THEN 1 ELSE 0>>
BinInDomain(op, a, t1, b, t2) ==
  CASE op \in ArithOps -> LET t == ArithType(t1, t2) IN ArithInDomain(op, t, Convert(a, t1, t), Convert(b, t2, t))
    [] op \in ShiftOps -> ShiftInDomain(t1, Convert(b, t2, t1))
    [] OTHER -> TRUE
BinValue(op, a, t1, b, t2) ==
  CASE op \in ArithOps -> LET t == ArithType(t1, t2) IN Arith(op, t, Convert(a, t1, t), Convert(b, t2, t))
    [] op \in BitOps -> LET t == BitType(t1, t2) IN Bitwise(op, Convert(a, t1, t), Convert(b, t2, t))
    [] op \in ShiftOps -> Shift(op, t1, a, Convert(b, t2, t1))
    [] op \in CmpOps -> LET t == CmpType(t1, t2) IN Compare(op, t, Convert(a, t1, t), Convert(b, t2, t))

\* compound assignment: arithmetic is done in the joint type and converted back, the bitwise and shift
\* forms work in the target's own type
CompDefined(op, t1, t2) == op \in ArithOps => Castable(ArithType(t1, t2), t1)
CompInDomain(op, a, t1, b, t2) == BinInDomain(op, a, t1, b, t2)
CompValue(op, a, t1, b, t2) ==
  CASE op \in ArithOps -> Convert(BinValue(op, a, t1, b, t2), ArithType(t1, t2), t1)
    [] op \in BitOps -> Bitwise(op, a, Convert(b, t2, t1))
    [] op \in ShiftOps -> Shift(op, t1, a, Convert(b, t2, t1))

UnOps == {"neg", "not", "plus", "lnot", "preinc", "predec", "postinc", "postdec"}
UnType(op, t) == CASE op = "neg" -> [s |-> TRUE, n |-> t.n] [] op = "lnot" -> BoolType [] OTHER -> t
UnInDomain(op, a, t) == CASE op \in {"preinc", "postinc"} -> ~(t.s /\ (Width(t) = 1 \/ MinS(NotB(a))))
                          [] op \in {"predec", "postdec"} -> ~(t.s /\ (Width(t) = 1 \/ MinS(a)))
                          [] OTHER -> TRUE
UnDefined(op, t) == op = "lnot" => t.n = 1
Stepped(op, a) == CASE op \in {"preinc", "postinc"} -> Add(a, One(Len(a)))
                    [] op \in {"predec", "postdec"} -> Sub(a, One(Len(a)))
                    [] OTHER -> a
UnValue(op, a) == CASE op = "neg" -> Neg(a)
                    [] op \in {"not", "lnot"} -> NotB(a)
                    [] op \in {"preinc", "predec"} -> Stepped(op, a)
                    [] OTHER -> a

\* ---- the definitions agree with native integers on small widths (checked by TLC, IntLaws.cfg)
Pow(n) == FoldLeft(LAMBDA acc, i: acc * 2, 1, Idx(n))
NatOf(a) == FoldLeft(LAMBDA acc, i: 2 * acc + a[Len(a) + 1 - i], 0, Idx(Len(a)))
ValOf(a, s) == IF s /\ SignBit(a) THEN NatOf(a) - Pow(Len(a)) ELSE NatOf(a)
ToBits(v, n) == LET m == v % Pow(n) IN [i \in 1..n |-> (m \div Pow(i - 1)) % 2]
Quot(x, y) == LET q == (IF x < 0 THEN -x ELSE x) \div (IF y < 0 THEN -y ELSE y)
              IN IF (x < 0) # (y < 0) THEN -q ELSE q
Laws(s, a, b) ==
  LET n == Len(a)
      x == ValOf(a, s)
      y == ValOf(b, s)
      t == [s |-> s, n |-> n]
  IN /\ Add(a, b) = ToBits(x + y, n)
     /\ Sub(a, b) = ToBits(x - y, n)
     /\ Mul(a, b) = ToBits(x * y, n)
     /\ Neg(a) = ToBits(-x, n)
     /\ y # 0 => Arith("/", t, a, b) = ToBits(Quot(x, y), n) /\ Arith("%", t, a, b) = ToBits(x - y * Quot(x, y), n)
     /\ Less(t, a, b) <=> x < y
     /\ \A k \in 0..n - 1: /\ ShlB(a, k) = ToBits(x * Pow(k), n)
                           /\ ShrB(a, k, IF s /\ SignBit(a) THEN 1 ELSE 0) = ToBits(x \div Pow(k), n)
     /\ \A m \in 1..8: ValOf(Convert(a, t, [s |-> s, n |-> m]), s) = ValOf(ToBits(x, m), s)
============================================================================
