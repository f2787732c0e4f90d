------------------------------ MODULE OverSpec ------------------------------
(* Overload resolution.  A program has scopes, innermost first, each with direct candidates, candidates injected
   into it (classes and function blocks) and candidates of modules it uses; a call offers arguments.  Injected objects
   are consulted in order, up to one that matches exactly.  The machine looks at the candidates of a scope
   in any order, keeping the better one; the declared meaning (Meaning) has no order in it.
   Types: I8..I64 W1..W64 (I0 of the architecture's width), N the null literal, F32 F64, pointers P PI PA PB,
   A, B (an A first, injected), C D E G with custom casts.
   Arguments [k, t]: k = "r" a variable, "v" a value.  Parameters [k, t, lo, hi]: k = "v" by value, "r" ref, "t" temp_ref,
   "p" an argument pack of lo..hi (0: any) elements, of type t or anything ("any"). *)
EXTENDS Integers, Sequences, FiniteSets, TLC

NONE == 0   AGG == 100   EXPL == 200   CUST == 300   IMPL == 400   PROM == 500   RAGG == 600   EXACT == 700

Ints == {"I0", "I8", "I16", "I32", "I64", "W1", "W8", "W16", "W32", "W64", "N"}
Signed(t) == t \in {"I0", "I8", "I16", "I32", "I64"}
Bits(t) == CASE t = "I0" -> 0 [] t \in {"W1", "N"} -> 1 [] t \in {"I8", "W8"} -> 8 [] t \in {"I16", "W16"} -> 16
             [] t \in {"I32", "W32"} -> 32 [] t \in {"I64", "W64"} -> 64
Floats == {"F32", "F64"}
FBits(t) == IF t = "F32" THEN 32 ELSE 64
Ptrs == {"P", "PI", "PA", "PB"}
Content(t) == CASE t = "PI" -> "I32" [] t = "PA" -> "A" [] t = "PB" -> "B"
Classes == {"A", "B", "C", "D", "E", "G", "H", "K"}
First(t) == IF t = "B" THEN "A" ELSE "none"          \* the injected first member
\* what the custom casts of a class give
Casts(t) == CASE t = "C" -> {[k |-> "v", t |-> "I32"]}
              [] t = "D" -> {[k |-> "v", t |-> "F64"], [k |-> "v", t |-> "PI"]}
              [] t = "E" -> {[k |-> "r", t |-> "I32"]}
              [] t = "G" -> {[k |-> "r", t |-> "B"]}
              [] t = "H" -> {[k |-> "v", t |-> "K"]}
              [] t = "K" -> {[k |-> "v", t |-> "H"], [k |-> "v", t |-> "W8"]}
              [] OTHER -> {}

Larger(s, t) == CASE Bits(s) = 0 /\ Bits(t) = 0 -> FALSE
                  [] Bits(t) = 0 /\ Bits(s) <= 32 -> TRUE
                  [] Bits(s) = 0 -> Bits(t) >= 64
                  [] OTHER -> Bits(t) > Bits(s)
IntMatch(s, t) == CASE Bits(s) = Bits(t) /\ Signed(s) = Signed(t) -> EXACT
                    [] Larger(s, t) /\ (Signed(s) = Signed(t) \/ Signed(t)) -> PROM
                    [] Bits(s) # 1 /\ Bits(t) = 1 -> NONE
                    [] OTHER -> IMPL
RECURSIVE Plain(_, _)
\* a value of type s to type t with nothing but the built-in rules
Plain(s, t) ==
  CASE s = t -> EXACT
    [] s \in Ints /\ t \in Ints -> IntMatch(s, t)
    [] s \in Ints /\ t \in Floats -> IMPL
    [] s \in Ints /\ t \in Ptrs -> IF s = "N" THEN IMPL ELSE IF s = "I0" THEN EXPL ELSE NONE
    [] s \in Floats /\ t \in Floats -> IF FBits(t) > FBits(s) THEN PROM ELSE IMPL
    [] s \in Floats /\ t \in Ints -> IF t = "W1" THEN NONE ELSE IMPL
    [] s \in Ptrs /\ t = "P" -> RAGG
    [] s = "P" /\ t \in Ptrs -> EXPL
    [] s \in Ptrs /\ t \in Ptrs -> LET m == Plain(Content(s), Content(t)) IN
         IF m = EXACT THEN EXACT ELSE IF m \in {AGG, RAGG} THEN RAGG ELSE EXPL
    [] s \in Ptrs /\ t = "I0" -> EXPL
    [] s \in Classes /\ First(s) # "none" -> IF Plain(First(s), t) \in {EXACT, AGG, RAGG} THEN AGG ELSE NONE
    [] OTHER -> NONE

\* an argument a to a parameter form p, built-in rules
RefToRef(s, t) == LET m == Plain(s, t) IN IF m = AGG THEN RAGG ELSE IF m >= RAGG THEN m ELSE NONE
Basic(a, p) == IF p.k = "r" THEN (IF a.k = "r" THEN RefToRef(a.t, p.t) ELSE NONE) ELSE Plain(a.t, p.t)
Max(S) == IF S = {} THEN 0 ELSE CHOOSE x \in S : \A y \in S : x >= y
RECURSIVE Rank4(_, _, _)
\* the best of the custom casts: what a cast gives is matched in its turn, never through the same class again
Custom(a, p, least, chain) ==
  LET ms == IF a.t \in chain THEN {} ELSE {Rank4(r, p, chain \cup {a.t}) : r \in Casts(a.t)}
      m == Max({x \in ms : x >= CUST})
  IN IF m >= least THEN CUST + m \div 10 ELSE NONE
Rank4(a, p, chain) ==
  IF p.k = "t"
  THEN LET m == Plain(a.t, p.t) IN
       IF m = AGG THEN RAGG ELSE IF m >= RAGG THEN m
       ELSE Custom(a, p, IF a.k = "v" THEN IMPL ELSE CUST, chain)
  ELSE LET m == Basic(a, p) IN
       IF m >= IMPL THEN m
       ELSE LET c == Custom(a, p, IF a.k = "v" THEN IMPL ELSE CUST, chain) IN
            IF c # NONE THEN c ELSE m
Rank(a, p) == Rank4(a, p, {})

Pair(a, p) == IF p.k = "p" THEN (IF p.t = "any" THEN EXACT ELSE Rank(a, [k |-> "v", t |-> p.t])) ELSE Rank(a, p)
\* a whole call: parameters take arguments in order, packs take as many as they accept
RECURSIVE Take(_, _, _, _, _, _)
Take(ps, as, i, n, j, acc) ==      \* parameter i has n arguments, j the next argument
  IF j > Len(as)
  THEN IF \A q \in 1..Len(ps) : \/ q < i
                                \/ ps[q].k = "p" /\ (IF q = i THEN n ELSE 0) >= ps[q].lo
                                \/ ps[q].k # "p" /\ q = i
       THEN acc ELSE NONE
  ELSE LET a == as[j]
           more == i >= 1 /\ i <= Len(ps) /\ ps[i].k = "p" /\ (ps[i].hi = 0 \/ n < ps[i].hi)
           r == IF more THEN Pair(a, ps[i]) ELSE NONE
           Low(x) == IF x < acc THEN x ELSE acc
           nexts == {q \in (i + 1)..Len(ps) : \A b \in (i + 1)..(q - 1) : ps[b].k = "p" /\ ps[b].lo = 0 /\ Pair(a, ps[b]) < CUST}
           q == Max(nexts)
       IN IF r >= CUST THEN Take(ps, as, i, n + 1, j + 1, Low(r))
          ELSE IF more /\ n < ps[i].lo THEN NONE
          ELSE IF nexts = {} THEN NONE
          ELSE IF Pair(a, ps[q]) >= CUST THEN Take(ps, as, q, 1, j + 1, Low(Pair(a, ps[q]))) ELSE NONE
Status(ps, as) == IF ps = <<>> THEN (IF as = <<>> THEN EXACT ELSE NONE)
                  ELSE Take(ps, as, 0, 0, 1, EXACT)

(* ---------------------------------------------------------------- the declared meaning *)
\* a candidate's name: <<scope, group, position>>; group 0 direct, g > 0 the g-th injection, g < 0 the g-th used module
Seqs(p, s, g) == IF g = 0 THEN p.scopes[s].cands ELSE IF g > 0 THEN p.scopes[s].inj[g] ELSE p.scopes[s].uses[-g]
Ids(p, s, G) == UNION {{<<s, g, i>> : i \in DOMAIN Seqs(p, s, g)} : g \in G}
Direct(p, s) == Ids(p, s, 0..Len(p.scopes[s].inj))
Used(p, s) == Ids(p, s, {-u : u \in DOMAIN p.scopes[s].uses})
Of(p, c) == Status(Seqs(p, c[1], c[2])[c[3]], p.args)
Lvl(c) == IF c[2] > 0 THEN 1 ELSE 0
Better(p, c, d) == \/ Of(p, c) > Of(p, d)
                   \/ Of(p, c) = Of(p, d) /\ Lvl(c) < Lvl(d)
                   \/ Of(p, c) = EXACT /\ Of(p, d) = EXACT /\ Lvl(c) = 1 /\ Lvl(d) = 1 /\ c[2] < d[2]
Pick(p, S) == LET ok == {c \in S : Of(p, c) >= CUST}
                  best == {c \in ok : \A d \in ok : ~Better(p, d, c)}
              IN IF ok = {} THEN [kind |-> "mismatch", id |-> <<>>]
                 ELSE IF Cardinality(best) > 1 THEN [kind |-> "ambiguous", id |-> <<>>]
                 ELSE [kind |-> "run", id |-> CHOOSE c \in best : TRUE]
RECURSIVE MeanAt(_, _)
MeanAt(p, s) == IF s > Len(p.scopes) THEN [kind |-> "unknown", id |-> <<>>]
                ELSE IF Direct(p, s) # {} THEN Pick(p, Direct(p, s))
                ELSE IF Used(p, s) # {} THEN Pick(p, Used(p, s))
                ELSE MeanAt(p, s + 1)
Meaning(p) == MeanAt(p, 1)

(* ---------------------------------------------------------------- the machine *)
New == [kind |-> "new", id |-> <<>>, rank |-> 0, lvl |-> 0]
Start(p) == [s |-> 1, phase |-> "direct", g |-> 0, rest |-> Ids(p, 1, {0}), r |-> New, done |-> FALSE]
Select(n, r) ==      \* n against the best so far
  IF n.rank >= CUST
  THEN IF n.rank > r.rank THEN n
       ELSE IF n.rank = r.rank THEN (IF n.lvl < r.lvl THEN n ELSE IF n.lvl = r.lvl /\ n.id # r.id THEN [r EXCEPT !.kind = "ambiguous"] ELSE r)
       ELSE r
  ELSE IF r.kind = "new" THEN n ELSE r
Try(p, c) == LET m == Of(p, c) IN [kind |-> IF m >= CUST THEN "run" ELSE "mismatch", id |-> IF m >= CUST THEN c ELSE <<>>,
                                   rank |-> IF m >= CUST THEN m ELSE 0, lvl |-> Lvl(c)]
Enter(p, st, ph, s) ==
  [st EXCEPT !.phase = ph, !.s = s,
             !.rest = IF s > Len(p.scopes) THEN {} ELSE
                      CASE ph = "direct" -> Ids(p, s, {0}) [] ph = "inj" -> (IF p.scopes[s].inj = <<>> THEN {} ELSE Ids(p, s, {1})) [] ph = "use" -> Used(p, s),
             !.g = IF ph = "inj" THEN 1 ELSE 0]
Succ(p, st) ==
  IF st.rest # {} THEN {[st EXCEPT !.rest = @ \ {c}, !.r = Select(Try(p, c), st.r)] : c \in st.rest}
  ELSE IF st.phase = "direct" /\ st.r.rank < EXACT THEN {Enter(p, st, "inj", st.s)}
  ELSE IF st.phase = "inj" /\ st.g < Len(p.scopes[st.s].inj) /\ st.r.rank < EXACT
  THEN {[st EXCEPT !.g = @ + 1, !.rest = Ids(p, st.s, {st.g + 1})]}
  ELSE IF st.r.kind # "new" THEN {[st EXCEPT !.done = TRUE]}
  ELSE IF st.phase = "inj" THEN {Enter(p, st, "use", st.s)}
  ELSE IF st.s = Len(p.scopes) THEN {[st EXCEPT !.done = TRUE, !.r.kind = "unknown"]}
  ELSE {Enter(p, st, "direct", st.s + 1)}
Answer(st) == [kind |-> st.r.kind, id |-> IF st.r.kind = "run" THEN st.r.id ELSE <<>>]

OrderFree(p, st) == st.done => Answer(st) = Meaning(p)
\* what runs accepts the arguments and nothing visible beside it is a better match
NoBetter(p, st) == (st.done /\ st.r.kind = "run") =>
  /\ Of(p, st.r.id) >= CUST
  /\ \A c \in Direct(p, st.s) : ~Better(p, c, st.r.id)
=============================================================================
