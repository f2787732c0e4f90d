------------------------------- MODULE LexRun -------------------------------
(* The scanner as a machine: it reads one character at a time, keeps for every kind of token what may still follow
   (the derivative of its expression), remembers the best complete match, and when nothing can follow any more emits
   that match and goes back to the character after it.  Checked: for every text of the space the machine emits exactly
   the greedy division by longest match (Tokens), and the tokens cover the text. *)
EXTENDS LexSpec, Json, IOUtils

CONSTANT Batched      \* whether the texts are given, or enumerated: every text up to some length over some characters
Input == JsonDeserialize("batch.json").batch

VARIABLES text, start, out, err, line, col, ended
vars == <<text, start, out, err, line, col, ended>>

Nothing == [k |-> "none", n |-> 0]

RECURSIVE Nullable(_), D(_, _)
Nullable(r) == CASE r.o \in {"none", "in", "not"} -> FALSE [] r.o \in {"eps", "star"} -> TRUE
                 [] r.o = "cat" -> \A i \in 1..Len(r.l) : Nullable(r.l[i])
                 [] r.o = "alt" -> \E i \in 1..Len(r.l) : Nullable(r.l[i])
MkCat(l) == IF \E i \in 1..Len(l) : l[i] = None THEN None
            ELSE LET m == SelectSeq(l, LAMBDA x : x # Eps) IN IF m = <<>> THEN Eps ELSE IF Len(m) = 1 THEN m[1] ELSE Cat(m)
MkAlt(l) == LET m == SelectSeq(l, LAMBDA x : x # None) IN IF m = <<>> THEN None ELSE IF Len(m) = 1 THEN m[1] ELSE Alt(m)
D(r, c) == CASE r.o \in {"none", "eps"} -> None
             [] r.o \in {"in", "not"} -> IF (c \in r.s) = (r.o = "in") THEN Eps ELSE None
             [] r.o = "star" -> MkCat(<<D(r.r, c), r>>)
             [] r.o = "alt" -> MkAlt([i \in 1..Len(r.l) |-> D(r.l[i], c)])
             [] r.o = "cat" -> LET h == Head(r.l) t == MkCat(Tail(r.l)) a == MkCat(<<D(h, c), t>>) IN
                                IF Nullable(h) THEN MkAlt(<<a, D(t, c)>>) ELSE a

Init == /\ \E i \in 1..Len(Input) :
             IF Batched THEN text = Append(Input[i], "EOF")
             ELSE \E n \in 0..Input[i].n : \E t \in [1..n -> {Input[i].a[j] : j \in 1..Len(Input[i].a)}] : text = Append(t, "EOF")
        /\ start = 1 /\ out = <<>> /\ err = 0 /\ line = 1 /\ col = 1 /\ ended = FALSE

RECURSIVE Advance(_, _, _, _)
Advance(l, c, i, n) == IF n = 0 THEN <<l, c>>
  ELSE Advance(IF text[i] = "NL" THEN l + 1 ELSE l, IF text[i] \in {"NL", "CR"} THEN 1 ELSE c + 1, i + 1, n - 1)

Rank(k) == IF k = "Op" THEN 0 ELSE CHOOSE j \in 1..Len(Kinds) : Kinds[j] = k

AllLive == {<<k, Rx[k]>> : k \in DOMAIN Rx}

(* read characters from position p on until no kind is alive; live: what may still follow, ops: the operators that may
   still match, best: the best complete match so far.  "open": the text ended while something was alive. *)
RECURSIVE Read(_, _, _, _, _)
Read(p, n, live, ops, best) ==
  IF live = {} /\ ops = {} THEN best
  ELSE IF p > Len(text) THEN [k |-> "open", n |-> 0]
  ELSE LET c == text[p]
           o == {q \in ops : Len(q) >= n /\ q[n] = c}
           d == {e \in {<<x[1], D(x[2], c)>> : x \in live} : e[2] # None}
           full == {x[1] : x \in {y \in d : Nullable(y[2])}}
           done == full \cup (IF \E q \in o : Len(q) = n THEN {"Op"} ELSE {})
       IN Read(p + 1, n + 1, {x \in d : ~(x[1] \in Shortest /\ x[1] \in full)}, o,
               IF done = {} THEN best ELSE [k |-> CHOOSE k \in done : \A q \in done : Rank(k) <= Rank(q), n |-> n])
Scan == Read(start, 1, AllLive, Operators, Nothing)

Go(n) == /\ start' = start + n
         /\ LET p == Advance(line, col, start, n) IN line' = p[1] /\ col' = p[2]

Complaint == IF err = 0 THEN <<>> ELSE <<[k |-> "Unknown", a |-> err, n |-> start - err]>>

Step ==
  /\ ~ended /\ start < Len(text)
  /\ LET best == Scan IN
     CASE best.k = "open" -> /\ out' = Append(out, [k |-> "Open", a |-> start, n |-> 0])
                             /\ start' = Len(text) /\ err' = 0 /\ UNCHANGED <<line, col>>
       [] best.k = "none" -> /\ err' = IF err = 0 THEN start ELSE err
                             /\ Go(1) /\ UNCHANGED out
       [] OTHER -> /\ out' = out \o Complaint \o (IF best.k \in Ignored THEN <<>> ELSE <<[k |-> best.k, a |-> start, n |-> best.n]>>)
                   /\ err' = 0 /\ Go(best.n)
  /\ UNCHANGED <<text, ended>>

Finish ==
  /\ ~ended /\ start >= Len(text)
  /\ ended' = TRUE
  /\ out' = out \o Complaint
  /\ LET s(a, n) == SubSeq(text, a, a + n - 1) IN
     LET x == [i \in 1..Len(out') |-> [k |-> out'[i].k, t |-> Denotes(out'[i].k, s(out'[i].a, out'[i].n)),
                 l |-> Line(text, out'[i].a), c |-> Column(text, out'[i].a),
                 \* a text that is one literal: what it denotes
                 v |-> IF Len(out') = 1 /\ out'[1].n = Len(text) - 1
                       THEN (CASE out'[1].k = "Int" -> IntLiteral(s(1, Len(text) - 1)) [] out'[1].k = "Float" -> FloatLiteral(s(1, Len(text) - 1)) [] OTHER -> [what |-> "-"])
                       ELSE [what |-> "-"]]]
     IN PrintT("@X " \o ToJson([p |-> SubSeq(text, 1, Len(text) - 1), x |-> x]))
  /\ UNCHANGED <<text, start, err, line, col>>

Next == Step \/ Finish
Spec == Init /\ [][Next]_vars

SameAsGreedy == ended => out = Tokens(text)
PositionsAgree == (out = <<>> \/ out[Len(out)].k # "Open") => line = Line(text, start) /\ col = Column(text, start)
=============================================================================