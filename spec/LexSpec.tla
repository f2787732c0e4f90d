------------------------------ MODULE LexSpec ------------------------------
(* Tokens and literals.  A text is a sequence of characters; a character is a one-character string, or a name for
   one that cannot be written here (NL, CR, TAB, RLM, DQ, SQ, BS, EOF, Arabic letters, ...).

   Part 1 says what the tokens of the language are: a regular expression per kind, with membership defined
   directly (Ends), and the greedy division of a text by longest match.
   Part 2 says what a literal denotes: the text of a string or character literal, the value, width and signedness of
   an integer literal, the value of a floating point literal.
   The scanner itself, which reads one character at a time and can take back characters, is in LexRun. *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Chars(s) == [i \in 1..Len(s) |-> SubSeq(s, i, i)]
Of(s) == {SubSeq(s, i, i) : i \in 1..Len(s)}

Bin == Of("01")
Oct == Of("01234567")
Dec == Of("0123456789")
Hex == Of("0123456789abcdefABCDEF")
ArLetters == {"noon", "meem", "tah", "sad", "ain", "jeem", "teh", "reh", "beh", "shadda", "yeh"}
Letter == Of("abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ_") \cup ArLetters
Space == {" ", "NL", "CR", "TAB", "RLM"}

Operators == {Chars(s) : s \in {
  "!", "$", "%", "&", "(", ")", "*", "+", ",", "-", ".", "/", ":", ";", "<", "=", ">", "?", "@", "[", "]", "{", "|", "}", "~",
  "!!", "!=", "$$", "$=", "%=", "&&", "&=", "*=", "++", "+=", "--", "-=", "->", "..", ".>", "/=", "::", ":>", "<.", "<:", "<<",
  "<=", "==", "=>", ">=", ">>", "@<", "|=", "||", "...", "..>", "::>", "<.>", "<::", "<<=", ">>="}}
  \cup {<<"BS">>, <<"div">>, <<"acomma">>, <<"asemi">>, <<"aquest">>, <<"div", "=">>}

----------------------------------------------------------------------------
(* regular expressions *)
None == [o |-> "none"]
Eps == [o |-> "eps"]
In(s) == [o |-> "in", s |-> s]
Not(s) == [o |-> "not", s |-> s]
Cat(l) == [o |-> "cat", l |-> l]
Alt(l) == [o |-> "alt", l |-> l]
Star(r) == [o |-> "star", r |-> r]
Opt(r) == Alt(<<Eps, r>>)
Plus(r) == Cat(<<r, Star(r)>>)
Lit(l) == Cat([i \in 1..Len(l) |-> In({l[i]})])

DecInt == Plus(In(Dec))
Prefixed(p, d) == Cat(<<In({"0"}), In(p), Plus(In(d))>>)
RInt == Cat(<<Alt(<<DecInt, Prefixed({"b", "B", "noon"}, Bin), Prefixed({"o", "O", "meem"}, Oct),
                    Prefixed({"h", "H", "x", "X"}, Hex)>>),
              Opt(In({"u", "U", "tah"})), Opt(Cat(<<In({"i", "I", "sad"}), DecInt>>))>>)
FPost == Cat(<<In({"f", "F", "ain"}), Star(In(Dec))>>)
FExp == Cat(<<In({"e", "E"}), Opt(In({"+", "-"})), DecInt>>)
RFloat == Alt(<<Cat(<<DecInt, FPost>>), Cat(<<DecInt, FExp, Opt(FPost)>>),
                Cat(<<Star(In(Dec)), In({"."}), DecInt, Opt(FExp), Opt(FPost)>>)>>)
H == In(Hex)
Escape == Cat(<<In({"BS"}), Alt(<<In({"BS", "DQ", "SQ", "n", "t", "f", "r", "jeem", "teh", "reh"}),
                  Cat(<<In({"h", "x"}), H, H>>), Cat(<<In({"u"}), H, H, H, H>>), Cat(<<In({"U"}), H, H, H, H, H, H, H, H>>)>>)>>)
RChar == Cat(<<In({"SQ"}), Alt(<<Not({"BS", "SQ"}), Escape>>), In({"SQ"})>>)
StrPart == Cat(<<In({"DQ"}), Star(Alt(<<Not({"BS", "DQ"}), Escape>>)), In({"DQ"})>>)
RStr == Cat(<<StrPart, Star(Cat(<<Star(In(Space)), StrPart>>))>>)
RLine == Cat(<<Alt(<<Lit(<<"/", "/">>), In({"#"})>>), Star(Not({"NL"})), In({"NL"})>>)
RBlock == Cat(<<Lit(<<"/", "*">>), Star(Not({})), Lit(<<"*", "/">>)>>)

(* kinds in their order of precedence; an operator wins over all of them *)
Kinds == <<"Identifier", "Int", "Float", "Char", "Str", "Space", "Line", "Block">>
Rx == [k \in {Kinds[i] : i \in 1..Len(Kinds)} |->
  CASE k = "Identifier" -> Cat(<<In(Letter), Star(In(Letter \cup Dec))>>) [] k = "Int" -> RInt [] k = "Float" -> RFloat
    [] k = "Char" -> RChar [] k = "Str" -> RStr [] k = "Space" -> Plus(In(Space)) [] k = "Line" -> RLine [] k = "Block" -> RBlock]
Ignored == {"Space", "Line", "Block"}
Shortest == {"Block"}

----------------------------------------------------------------------------
(* Part 1.  Ends(r, t, S): the positions at which a match of r that starts at a position of S ends.  The position
   past the end of t absorbs: from there every character is available. *)
RECURSIVE Ends(_, _, _), EndsCat(_, _, _), EndsStar(_, _, _)
Ends(r, t, S) ==
  CASE r.o = "none" -> {}
    [] r.o = "eps" -> S
    [] r.o \in {"in", "not"} -> {IF i > Len(t) THEN i ELSE i + 1 : i \in {j \in S : j > Len(t) \/ ((t[j] \in r.s) = (r.o = "in"))}}
    [] r.o = "cat" -> EndsCat(r.l, t, S)
    [] r.o = "alt" -> UNION {Ends(r.l[i], t, S) : i \in 1..Len(r.l)}
    [] r.o = "star" -> EndsStar(r.r, t, S)
EndsCat(l, t, S) == IF l = <<>> \/ S = {} THEN S ELSE EndsCat(Tail(l), t, Ends(Head(l), t, S))
EndsStar(r, t, S) == LET n == S \cup Ends(r, t, S) IN IF n = S THEN S ELSE EndsStar(r, t, n)

MaxOf(S) == CHOOSE x \in S : \A y \in S : y <= x
MinOf(S) == CHOOSE x \in S : \A y \in S : x <= y

OpLens(t, i) == {Len(o) : o \in {p \in Operators : i + Len(p) - 1 <= Len(t) /\ SubSeq(t, i, i + Len(p) - 1) = p}}

(* the token at position i of t (t ends with EOF): its kind ("none": no token starts here, "open": the text ends inside
   a token that could still be completed) and length *)
TokenAt(t, i) ==
  LET ends == [k \in DOMAIN Rx |-> Ends(Rx[k], t, {i})]
      full == [k \in DOMAIN Rx |-> {e \in ends[k] : e <= Len(t)}]
      len == [k \in DOMAIN Rx |-> IF full[k] = {} THEN 0 ELSE (IF k \in Shortest THEN MinOf(full[k]) ELSE MaxOf(full[k])) - i]
      open == \E k \in DOMAIN Rx : Len(t) + 1 \in ends[k] /\ ~(k \in Shortest /\ full[k] # {})
      op == IF OpLens(t, i) = {} THEN 0 ELSE MaxOf(OpLens(t, i))
      best == MaxOf({op} \cup {len[k] : k \in DOMAIN Rx})
  IN IF open THEN [k |-> "open", n |-> 0]
     ELSE IF best = 0 THEN [k |-> "none", n |-> 1]
     ELSE IF op = best THEN [k |-> "Op", n |-> best]
     ELSE [k |-> Kinds[MinOf({j \in 1..Len(Kinds) : len[Kinds[j]] = best})], n |-> best]

Line(t, i) == 1 + Cardinality({j \in 1..i-1 : t[j] = "NL"})
Column(t, i) == LET b == {j \in 1..i-1 : t[j] \in {"NL", "CR"}} IN IF b = {} THEN i ELSE i - MaxOf(b)

(* the tokens and complaints of t from position i on; err: where the current run of unrecognised characters starts *)
RECURSIVE Greedy(_, _, _)
Greedy(t, i, err) ==
  LET complaint == IF err = 0 THEN <<>> ELSE <<[k |-> "Unknown", a |-> err, n |-> i - err]>> IN
  IF i >= Len(t) THEN complaint
  ELSE LET x == TokenAt(t, i) IN
    CASE x.k = "open" -> <<[k |-> "Open", a |-> i, n |-> 0]>>
      [] x.k = "none" -> Greedy(t, i + 1, IF err = 0 THEN i ELSE err)
      [] OTHER -> complaint \o (IF x.k \in Ignored THEN <<>> ELSE <<[k |-> x.k, a |-> i, n |-> x.n]>>) \o Greedy(t, i + x.n, 0)
Tokens(t) == Greedy(t, 1, 0)

----------------------------------------------------------------------------
(* Part 2.  The text a string or character literal stands for: a sequence of characters, where a numeric escape is
   given as "U+" followed by its digits. *)
RECURSIVE Concat(_)
Concat(l) == IF l = <<>> THEN "" ELSE Head(l) \o Concat(Tail(l))
Esc(c) == CASE c \in {"n", "jeem"} -> "NL" [] c \in {"r", "reh"} -> "CR" [] c \in {"t", "teh"} -> "TAB" [] c = "f" -> "FF" [] OTHER -> c
HexLen(c) == CASE c \in {"h", "x"} -> 2 [] c = "u" -> 4 [] c = "U" -> 8 [] OTHER -> 0
RECURSIVE Decode(_, _, _)
Decode(s, q, inside) ==   \* q: the quote
  IF s = <<>> THEN <<>>
  ELSE IF Head(s) = q THEN Decode(Tail(s), q, ~inside)
  ELSE IF ~inside THEN Decode(Tail(s), q, inside)
  ELSE IF Head(s) # "BS" THEN <<Head(s)>> \o Decode(Tail(s), q, inside)
  ELSE LET n == HexLen(s[2]) IN
    IF n = 0 THEN <<Esc(s[2])>> \o Decode(SubSeq(s, 3, Len(s)), q, inside)
    ELSE <<"U+" \o Concat(SubSeq(s, 3, 2 + n))>> \o Decode(SubSeq(s, 3 + n, Len(s)), q, inside)
Denotes(k, s) == CASE k = "Str" -> Decode(s, "DQ", FALSE) [] k = "Char" -> Decode(s, "SQ", FALSE) [] OTHER -> s

(* Integers: 64-bit values as four 16-bit limbs, lowest first, plus a flag for what does not fit. *)
DigitValue(c) == CHOOSE v \in 0..15 : c \in {SubSeq("0123456789abcdef", v + 1, v + 1), SubSeq("0123456789ABCDEF", v + 1, v + 1)}
Zero == [l |-> <<0, 0, 0, 0>>, over |-> FALSE]
MulAdd(v, b, d) ==
  LET a == v.l[1] * b + d
      c == v.l[2] * b + a \div 65536
      e == v.l[3] * b + c \div 65536
      f == v.l[4] * b + e \div 65536
  IN [l |-> <<a % 65536, c % 65536, e % 65536, f % 65536>>, over |-> v.over \/ f >= 65536]
RECURSIVE Number(_, _, _)
Number(s, b, acc) == IF s = <<>> THEN acc ELSE Number(Tail(s), b, MulAdd(acc, b, DigitValue(Head(s))))
(* the number of bits of the value *)
RECURSIVE Bits16(_)
Bits16(n) == IF n = 0 THEN 0 ELSE 1 + Bits16(n \div 2)
Bits(v) == IF v.l[4] # 0 THEN 48 + Bits16(v.l[4]) ELSE IF v.l[3] # 0 THEN 32 + Bits16(v.l[3])
           ELSE IF v.l[2] # 0 THEN 16 + Bits16(v.l[2]) ELSE Bits16(v.l[1])
Widths == {1, 8, 16, 32, 64}
Fit(n) == MinOf({w \in Widths : w >= n})

RECURSIVE Span(_, _)   \* the longest prefix of s in the given characters
Span(s, c) == IF s # <<>> /\ Head(s) \in c THEN <<Head(s)>> \o Span(Tail(s), c) ELSE <<>>
Rest(s, n) == SubSeq(s, n + 1, Len(s))

RECURSIVE Small(_, _)   \* a number used as a width: saturates
Small(s, acc) == IF s = <<>> THEN acc ELSE IF acc > 1000 THEN acc ELSE Small(Tail(s), acc * 10 + DigitValue(Head(s)))

IntLiteral(s) ==
  LET base == IF Len(s) > 1 /\ s[1] = "0" THEN (CASE s[2] \in {"b", "B", "noon"} -> 2 [] s[2] \in {"o", "O", "meem"} -> 8
                                                   [] s[2] \in {"h", "H", "x", "X"} -> 16 [] OTHER -> 10) ELSE 10
      body == IF base = 10 THEN s ELSE Rest(s, 2)
      digits == Span(body, IF base = 16 THEN Hex ELSE Dec)
      r1 == Rest(body, Len(digits))
      uns == r1 # <<>> /\ Head(r1) \in {"u", "U", "tah"}
      r2 == IF uns THEN Tail(r1) ELSE r1
      typed == r2 # <<>>
      asked == IF typed THEN Small(Tail(r2), 0) ELSE 0
      v == Number(digits, base, Zero)
      tiny == v.l \in {<<0, 0, 0, 0>>, <<1, 0, 0, 0>>}
      signed == ~uns /\ ~(asked = 0 /\ tiny)
      width == IF asked # 0 THEN asked ELSE IF tiny THEN 1 ELSE IF signed THEN Fit(IF Bits(v) = 64 THEN 64 ELSE IF Bits(v) < 8 THEN 8 ELSE Bits(v) + 1)
               ELSE Fit(IF Bits(v) < 2 THEN 8 ELSE Bits(v))
      \* judged: the value fits the type (a value with the sign bit set stands for the negative number of that pattern)
      fits == ~v.over /\ (width \notin Widths \/ Bits(v) <= width)
  IN [what |-> IF width \notin Widths THEN "error" ELSE IF ~typed /\ v = Zero THEN "null" ELSE "int",
      l |-> v.l, over |-> v.over, width |-> width, signed |-> signed,
      fits |-> fits /\ ~(asked = 0 /\ signed /\ Bits(v) = 64),
      negative |-> signed /\ width \in Widths /\ Bits(v) = width]

(* Floating point: the value is n * 10^e; judged when it is the exact value n5 * 2^p with n5 small enough *)
RECURSIVE Pow(_, _)
Pow(b, n) == IF n = 0 THEN 1 ELSE b * Pow(b, n - 1)
RECURSIVE Plain(_, _)
Plain(s, acc) == IF s = <<>> THEN acc ELSE Plain(Tail(s), acc * 10 + DigitValue(Head(s)))
RECURSIVE Strip(_)   \* leading zeros
Strip(s) == IF s # <<>> /\ Head(s) = "0" THEN Strip(Tail(s)) ELSE s
FloatLiteral(s) ==
  LET whole == Span(s, Dec)
      r1 == Rest(s, Len(whole))
      dot == r1 # <<>> /\ Head(r1) = "."
      frac == IF dot THEN Span(Tail(r1), Dec) ELSE <<>>
      r2 == IF dot THEN Rest(r1, 1 + Len(frac)) ELSE r1
      exp == r2 # <<>> /\ Head(r2) \in {"e", "E"}
      sgn == exp /\ r2[2] \in {"+", "-"}
      ed == IF exp THEN Span(Rest(r2, IF sgn THEN 2 ELSE 1), Dec) ELSE <<>>
      r3 == IF exp THEN Rest(r2, (IF sgn THEN 2 ELSE 1) + Len(ed)) ELSE r2
      asked == IF r3 = <<>> THEN 0 ELSE Small(Tail(r3), 0)
      width == IF r3 = <<>> \/ Tail(r3) = <<>> THEN 32 ELSE asked
      digits == Strip(whole \o frac)
      ok == Len(digits) <= 9 /\ Len(Strip(ed)) <= 1
      n == IF ok THEN Plain(digits, 0) ELSE 0
      e == IF ok THEN (IF sgn /\ r2[2] = "-" THEN -1 ELSE 1) * Plain(ed, 0) - Len(frac) ELSE 0
      m == IF width = 32 THEN 16777216 ELSE 2147483647
      exact == ok /\ (IF e >= 0 THEN e <= 9 /\ (n = 0 \/ Pow(5, e) <= m \div n) ELSE -e <= 9 /\ n % Pow(5, -e) = 0 /\ n \div Pow(5, -e) <= m)
  IN [what |-> IF width \in {32, 64} THEN "float" ELSE "error", width |-> width, exact |-> exact,
      n |-> IF ~exact THEN 0 ELSE IF e >= 0 THEN n * Pow(5, e) ELSE n \div Pow(5, -e), p |-> e]
=============================================================================
