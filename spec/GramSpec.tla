------------------------------ MODULE GramSpec ------------------------------
\* Expressions of the language: the grouping of a sequence of tokens.
\* Two independent definitions are given.  Derive is declarative: the set of trees the documented precedence levels
\* allow for a span of tokens (a context-free grammar read as a relation).  The machine (Shift, Finish) reads the tokens
\* left to right once, with a stack, the way an operator-precedence parser does.  GramRun explores every token sequence up
\* to a bound and checks that the grammar is unambiguous, that the machine accepts exactly what the grammar derives, and
\* that it builds the one tree there is.
\*
\* Tokens are classes:  id  operand        in  lowest link  ?  conditional   ,  list    :  lower link    =  assignment
\*   or logical   == comparison   => low link   + addition (also a prefix)   * multiplication   | bitwise
\*   ! prefix only   ++ prefix or postfix   . member   ( ) [ ] { } brackets   ; statement end   ~ a tilde operator
\* A tree is a record [k, t, kids]: kind, index of the token that makes it (0: none), children.
EXTENDS Integers, Sequences, FiniteSets, TLC

Level == [x \in {"in", "?", ",", ":", "=", "or", "==", "=>", "+", "*", "|"} |->
            CASE x = "in" -> 1 [] x = "?" -> 2 [] x = "," -> 3 [] x = ":" -> 4 [] x = "=" -> 5 [] x = "or" -> 6
              [] x = "==" -> 7 [] x = "=>" -> 8 [] x = "+" -> 9 [] x = "*" -> 10 [] OTHER -> 11]
Ops(l) == {x \in DOMAIN Level : Level[x] = l}
Prefixes == {"+", "!", "++"}
Postfixes == {"++"}
Classes == {"id", "in", "?", ",", ":", "=", "or", "==", "=>", "+", "*", "|", "!", "++", ".", "(", ")", "[", "]", "{", "}", ";", "~"}
Closer == [x \in {"(", "[", "{"} |-> CASE x = "(" -> ")" [] x = "[" -> "]" [] OTHER -> "}"]

Node(k, t, kids) == [k |-> k, t |-> t, kids |-> kids]
Null == Node("null", 0, <<>>)

-----------------------------------------------------------------------------
\* The grammar as a relation.  s: the whole token sequence; the span is a..b (empty when b < a).
RECURSIVE D(_, _, _, _), DSubj(_, _, _), DChain(_, _, _), DItems(_, _, _), DStmts(_, _, _)

Opt(l, s, a, b) == IF b < a THEN {Null} ELSE D(l, s, a, b)

\* A prefix operator takes the whole chain after it; a postfix operator takes all of that.
DUnary(s, a, b) ==
    LET Pre(y) == IF y < a THEN {} ELSE
                  DChain(s, a, y) \cup (IF s[a] \in Prefixes THEN {Node("pre", a, <<c>>) : c \in DChain(s, a + 1, y)} ELSE {})
    IN Pre(b) \cup (IF s[b] \in Postfixes THEN {Node("post", b, <<c>>) : c \in Pre(b - 1)} ELSE {})

DSubj(s, a, b) ==
    IF b < a THEN {}
    ELSE IF a = b THEN (IF s[a] = "id" THEN {Node("id", a, <<>>)} ELSE {})
    ELSE IF s[a] \in {"(", "["} /\ s[b] = Closer[s[a]] THEN {Node("br", a, <<c>>) : c \in Opt(1, s, a + 1, b - 1)}
    ELSE IF s[a] = "{" /\ s[b] = "}" THEN {Node("block", a, c) : c \in DStmts(s, a + 1, b - 1)}
    ELSE {}

DChain(s, a, b) ==
    IF b < a THEN {} ELSE
    DSubj(s, a, b)
    \cup UNION {IF s[i] = "." THEN {Node("link", i, <<x, y>>) : x \in DChain(s, a, i - 1), y \in DSubj(s, i + 1, b)}
                ELSE IF s[i] \in {"(", "["} /\ s[b] = Closer[s[i]]
                THEN {Node("pass", i, <<x, y>>) : x \in DChain(s, a, i - 1), y \in Opt(1, s, i + 1, b - 1)}
                ELSE {} : i \in (a + 1)..b}
    \cup (IF s[b] = "~" THEN {Node("tilde", b, <<x>>) : x \in DChain(s, a, b - 1)} ELSE {})

\* sequences of list elements separated by commas, an absent element being Null
DItems(s, a, b) ==
    {<<x>> : x \in Opt(4, s, a, b)}
    \cup UNION {IF s[i] = "," THEN {<<x>> \o r : x \in Opt(4, s, a, i - 1), r \in DItems(s, i + 1, b)} ELSE {} : i \in a..b}

DStmts(s, a, b) ==
    IF b < a THEN {<<>>}
    ELSE {<<x>> : x \in D(1, s, a, b)}
         \cup UNION {IF s[i] = ";" THEN {(IF i = a THEN <<>> ELSE <<x>>) \o r : x \in Opt(1, s, a, i - 1), r \in DStmts(s, i + 1, b)}
                     ELSE {} : i \in a..b}

D(l, s, a, b) ==
    IF b < a THEN {}
    ELSE IF l = 12 THEN DUnary(s, a, b)
    ELSE IF l = 3 THEN D(4, s, a, b) \cup {Node("list", 0, r) : r \in {q \in DItems(s, a, b) : Len(q) > 1}}
    ELSE D(l + 1, s, a, b)
         \cup UNION {IF s[i] \in Ops(l)
                     THEN {Node("bin", i, <<x, y>>) : x \in D(IF l \in {2, 5} THEN l + 1 ELSE l, s, a, i - 1),
                                                      y \in D(IF l = 5 THEN l ELSE l + 1, s, i + 1, b)}
                     ELSE {} : i \in (a + 1)..(b - 1)}

Derive(s) == DStmts(s, 1, Len(s))

-----------------------------------------------------------------------------
\* The machine.  Stack entries:
\*   [e |-> "val", v |-> tree, c |-> closed]     an operand; closed once a postfix operator was applied
\*   [e |-> "op", l |-> level, t |-> token]      a binary operator waiting for its right operand
\*   [e |-> "pre", t |-> token]   [e |-> "link", t |-> token]
\*   [e |-> "list", v |-> items]                 a list whose next item is being read
\*   [e |-> "open", x |-> bracket, t |-> token, call |-> BOOLEAN, v |-> statements so far]
E0 == [e |-> "", l |-> 0, t |-> 0, x |-> "", call |-> FALSE, c |-> FALSE, v |-> <<>>]
Val(tree, c) == [E0 EXCEPT !.e = "val", !.v = <<tree>>, !.c = c]
Init0 == [st |-> <<[E0 EXCEPT !.e = "open", !.x = "top"]>>, want |-> TRUE, err |-> FALSE, jux |-> FALSE, n |-> 0]

Top(m) == m.st[Len(m.st)]
Pop(q, n) == SubSeq(q, 1, Len(q) - n)
Err(m) == [m EXCEPT !.err = TRUE]

\* A pending prefix operator takes the operand above it once something other than a chain operator follows.
ClosePrefix(st) ==
    LET n == Len(st) IN
    IF n > 1 /\ st[n].e = "val" /\ st[n - 1].e = "pre"
    THEN Append(Pop(st, 2), Val(Node("pre", st[n - 1].t, st[n].v), TRUE)) ELSE st

\* reduce every pending operator that binds at least as tightly as an operator of level l (assignment: strictly tighter)
RECURSIVE Reduce(_, _)
Reduce(st0, l) ==
    LET st == ClosePrefix(st0)
        n == Len(st)
    IN IF n < 2 \/ st[n].e # "val" THEN st
       ELSE IF st[n - 1].e = "op" /\ (st[n - 1].l > l \/ (st[n - 1].l = l /\ l \notin {2, 5}))
       THEN Reduce(Append(Pop(st, 3), Val(Node("bin", st[n - 1].t, <<st[n - 2].v[1], st[n].v[1]>>), TRUE)), l)
       ELSE IF st[n - 1].e = "list" /\ l < 3
       THEN Reduce(Append(Pop(st, 2), Val(Node("list", 0, Append(st[n - 1].v, st[n].v[1])), TRUE)), l)
       ELSE st

\* an operand is absent: allowed after a comma, at the start of a list
WithNull(st) == IF st[Len(st)].e = "list" THEN Append(st, Val(Null, TRUE)) ELSE st
CanStartList(st) == LET x == st[Len(st)] IN x.e \in {"open", "list"} \/ (x.e = "op" /\ x.l < 3)

Operand(m, tree) ==
    LET x == Top(m) IN
    IF x.e = "link"
    THEN [m EXCEPT !.st = Append(Pop(m.st, 2), Val(Node("link", x.t, <<m.st[Len(m.st) - 1].v[1], tree>>), FALSE)), !.want = FALSE]
    ELSE [m EXCEPT !.st = Append(m.st, Val(tree, FALSE)), !.want = FALSE]

Binary(m, c, i) ==
    LET l == Level[c]
        st == Reduce(m.st, l)
        n == Len(st)
    IN IF l = 2 /\ n > 2 /\ st[n - 1].e = "op" /\ st[n - 1].l = 2 THEN Err(m)
       ELSE IF l = 3
       THEN IF st[n - 1].e = "list" THEN [m EXCEPT !.st = Append(Pop(st, 2), [E0 EXCEPT !.e = "list", !.v = Append(st[n - 1].v, st[n].v[1])]), !.want = TRUE]
            ELSE [m EXCEPT !.st = Append(Pop(st, 1), [E0 EXCEPT !.e = "list", !.v = st[n].v]), !.want = TRUE]
       ELSE [m EXCEPT !.st = Append(st, [E0 EXCEPT !.e = "op", !.l = l, !.t = i]), !.want = TRUE]

\* the end of an expression: -> the stack with everything since the innermost opening bracket reduced to one value or none
EndExp(m) == Reduce(IF m.want THEN WithNull(m.st) ELSE m.st, 0)
Complete(m) == ~m.want \/ Top(m).e \in {"open", "list"}
Innermost(st) == CHOOSE i \in 1..Len(st) : st[i].e = "open" /\ \A j \in (i + 1)..Len(st) : st[j].e # "open"

\* a statement ends inside a block or at the outermost level
EndStmt(m) ==
    LET st == EndExp(m)
        n == Len(st)
    IN IF st[n].e = "open" THEN [m EXCEPT !.st = st, !.want = TRUE]
       ELSE [m EXCEPT !.st = Append(Pop(st, 2), [st[n - 1] EXCEPT !.v = Append(@, st[n].v[1])]), !.want = TRUE]

Close(m, c) ==
    LET o == m.st[Innermost(m.st)] IN
    IF o.x = "top" \/ Closer[o.x] # c \/ ~Complete(m) THEN Err(m)
    ELSE IF c = "}"
    THEN LET f == EndStmt(m) b == Top(f) IN Operand([f EXCEPT !.st = Pop(f.st, 1)], Node("block", b.t, b.v))
    ELSE LET st == EndExp(m)
             n == Len(st)
             arg == IF st[n].e = "open" THEN Null ELSE st[n].v[1]
             rest == Pop(st, IF st[n].e = "open" THEN 1 ELSE 2)
         IN IF o.call
            THEN [m EXCEPT !.st = Append(Pop(rest, 1), Val(Node("pass", o.t, <<rest[Len(rest)].v[1], arg>>), FALSE)), !.want = FALSE]
            ELSE Operand([m EXCEPT !.st = rest], Node("br", o.t, <<arg>>))

Open(m, c, i, call) == [m EXCEPT !.st = Append(m.st, [E0 EXCEPT !.e = "open", !.x = c, !.t = i, !.call = call]), !.want = TRUE]

\* Two statements may follow each other without a separator (as in "if c {...} x"); such sequences are set aside (jux).
NextStmt(m) == IF m.st[Innermost(m.st)].x \in {"top", "{"} THEN [m EXCEPT !.jux = TRUE] ELSE Err(m)

Shift(m0, c) ==
    LET i == m0.n + 1
        m == [m0 EXCEPT !.n = i]
        x == Top(m)
    IN IF c = ";" THEN (IF m.st[Innermost(m.st)].x \in {"top", "{"} /\ Complete(m) THEN EndStmt(m) ELSE Err(m))
       ELSE IF c \in {")", "]", "}"} THEN Close(m, c)
       ELSE IF m.want
       THEN CASE c = "id" -> Operand(m, Node("id", i, <<>>))
              [] c \in {"(", "[", "{"} -> Open(m, c, i, FALSE)
              [] c \in Prefixes -> IF x.e \in {"pre", "link"} THEN Err(m) ELSE [m EXCEPT !.st = Append(m.st, [E0 EXCEPT !.e = "pre", !.t = i])]
              [] c = "," -> IF CanStartList(m.st)
                            THEN Binary([m EXCEPT !.st = Append(m.st, Val(Null, TRUE))], c, i) ELSE Err(m)
              [] c \in {"in", "?"} -> IF x.e = "list" THEN Binary([m EXCEPT !.st = WithNull(m.st)], c, i) ELSE Err(m)
              [] OTHER -> Err(m)
       ELSE CASE c \in {"(", "["} /\ ~x.c -> Open(m, c, i, TRUE)
              [] c \in {"(", "["} -> NextStmt(m)
              [] c = "." -> IF x.c THEN Err(m) ELSE [m EXCEPT !.st = Append(m.st, [E0 EXCEPT !.e = "link", !.t = i]), !.want = TRUE]
              [] c = "~" -> IF x.c THEN Err(m) ELSE [m EXCEPT !.st = Append(Pop(m.st, 1), Val(Node("tilde", i, x.v), FALSE))]
              [] c = "++" -> IF x.c THEN NextStmt(m) ELSE LET st == ClosePrefix(m.st)
                                       IN [m EXCEPT !.st = Append(Pop(st, 1), Val(Node("post", i, st[Len(st)].v), TRUE))]
              [] c \in DOMAIN Level -> Binary(m, c, i)
              [] OTHER -> NextStmt(m)

Accepting(m) == ~m.err /\ ~m.jux /\ Len(SelectSeq(m.st, LAMBDA y : y.e = "open")) = 1 /\ Complete(m)
Result(m) == EndStmt(m).st[1].v

\* the tokens of a tree in reading order: nothing dropped, duplicated or reordered
RECURSIVE Yield(_), YieldAll(_)
YieldAll(q) == IF q = <<>> THEN <<>> ELSE Yield(Head(q)) \o YieldAll(Tail(q))
Yield(n) == CASE n.k \in {"bin", "link", "pass"} -> Yield(n.kids[1]) \o <<n.t>> \o Yield(n.kids[2])
              [] n.k \in {"post", "tilde"} -> Yield(n.kids[1]) \o <<n.t>>
              [] n.k = "null" -> <<>>
              [] n.k = "list" -> YieldAll(n.kids)
              [] OTHER -> <<n.t>> \o YieldAll(n.kids)
Ordered(q) == \A i \in 1..(Len(q) - 1) : q[i] < q[i + 1]
=============================================================================
