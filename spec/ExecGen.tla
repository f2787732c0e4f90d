------------------------------ MODULE ExecGen ------------------------------
(* The bounded program spaces that are explored exhaustively for Exec.tla. *)
(* Programs are syntax trees; the harness numbers their nodes, renders     *)
(* them to Alusus and runs them, and Exec validates what was observed.     *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, SequencesExt

CONSTANTS Depth,     \* nesting depth of the loops
          Objects    \* TRUE: scopes may define objects

Ev == [k |-> "ev"]
Lit(n) == [k |-> "lit", n |-> n]
V(x) == [k |-> "var", x |-> x]
Bin(op, a, b) == [k |-> "bin", op |-> op, a |-> a, b |-> b]
Mark(e) == [k |-> "mark", e |-> e]
Blk(l) == [k |-> "block", l |-> l]
If(c, a, b) == [k |-> "if", c |-> c, a |-> a, b |-> b]
Name(i) == "n" \o ToString(i)

\* ------------------------------------------------------- nested loops with one jump
\* a loop at level i around the statements of body; it iterates twice
LoopAround(kind, i, body) ==
  LET x == Name(i) IN
  IF kind = "while"
  THEN Blk(<<[k |-> "defi", x |-> x, e |-> Lit(2)],
             [k |-> "while", c |-> Bin(">", [k |-> "inc", x |-> x, d |-> 0 - 1, post |-> 1], Lit(0)), b |-> body]>>)
  ELSE Blk(<<[k |-> "defi", x |-> x, e |-> Lit(9)],
             [k |-> "for", i |-> [k |-> "asg", op |-> "=", x |-> x, e |-> Mark(Lit(0))],
                           c |-> Bin("<", Mark(V(x)), Lit(2)),
                           u |-> [k |-> "inc", x |-> x, d |-> 1, post |-> 0],
                           b |-> body]>>)
LoopAt(kind, i, body) == LoopAround(kind, i, Blk(body))

Jumps(d) == [k : {"break", "continue"}, n : 1..d] \cup {[k |-> "ret", e |-> 0, c |-> 0]}

\* objs: the levels whose body defines an object before the inner statement
Def(i, objs) == IF i \in objs THEN <<[k |-> "defo", x |-> "o" \o ToString(i), c |-> 1, how |-> 1, e |-> Lit(i)]>> ELSE <<>>

RECURSIVE Nest(_, _, _, _, _, _)
\* kinds: function level -> kind; the jump is taken in the innermost body when
\* the counter of level g equals v
Nest(i, d, kinds, jump, g, objs) ==
  IF i > d
  THEN <<If(Bin("==", V(Name(g)), Lit(1)), Blk(Def(9, objs) \o <<Ev, jump>>), 0), Ev>>
  ELSE <<LoopAt(kinds[i], i, Def(i, objs) \o <<Ev>> \o Nest(i + 1, d, kinds, jump, g, objs) \o <<Ev>>), Ev>>

\* the same jump without braces around it: as the body of the if, of its else, or with the if as the loop's whole body
RECURSIVE Bare(_, _, _, _, _, _, _)
Bare(i, d, kinds, jump, g, objs, shape) ==
  LET hit == Bin("==", V(Name(g)), Lit(1))
      st == CASE shape = "else" -> If(Bin("!=", V(Name(g)), Lit(1)), Ev, jump)
              [] shape = "both" -> If(Bin("==", V(Name(g)), Lit(9)), Blk(Def(9, objs) \o <<Ev>>), If(hit, jump, Ev))
              [] OTHER -> If(hit, jump, 0)
  IN IF i > d THEN <<st, Ev>>
     ELSE IF i = d /\ shape = "loop" THEN <<LoopAround(kinds[i], i, st), Ev>>
     ELSE <<LoopAt(kinds[i], i, Def(i, objs) \o <<Ev>> \o Bare(i + 1, d, kinds, jump, g, objs, shape) \o <<Ev>>), Ev>>
BarePrograms ==
  { Blk(Def(8, o) \o Bare(1, d, kinds, j, g, o, sh)) :
      <<d, kinds, j, g, o, sh>> \in
        UNION { { <<d, kinds, j, g, o, sh>> : kinds \in [1..d -> {"while", "for"}], j \in Jumps(d), g \in 1..d,
                  o \in IF Objects THEN {1..d \cup {8, 9}} ELSE {{}}, sh \in {"if", "else", "both", "loop"} } : d \in 1..Depth } }

LoopPrograms == BarePrograms \cup
  { Blk(Def(8, o) \o Nest(1, d, kinds, j, g, o)) :
      <<d, kinds, j, g, o>> \in
        UNION { { <<d, kinds, j, g, o>> : kinds \in [1..d -> {"while", "for"}], j \in Jumps(d), g \in 1..d,
                  o \in IF Objects THEN SUBSET (1..d \cup {9}) ELSE {{}} } : d \in 1..Depth } }

\* ------------------------------------------------------- short circuit formulas
\* leaves: a marked constant compared, or a temporary object's value compared
Leaves(v) == IF Objects
             THEN {Bin(">", [k |-> "get", o |-> [k |-> "tmp", c |-> 1, how |-> 1, e |-> Lit(v)]], Lit(0))}
             ELSE {Bin(">", Mark(Lit(v)), Lit(0))}
L == UNION {Leaves(v) : v \in 0..1}
Lg(A, B) == [k : {"logic"}, op : {"and", "or"}, a : A, b : B]
F1 == L \cup Lg(L, L)
Nots(A) == A \cup [k : {"not"}, a : A]
F2 == Lg(Nots(F1), L) \cup Lg(L, Nots(F1)) \cup Lg(Lg(L, L), Lg(L, L))
Formulas == Nots(F1) \cup F2

\* contexts a formula is put in
InIf(f) == If(f, Blk(<<Ev>>), Blk(<<Ev>>))
InWhile(f) == [k |-> "while", c |-> f, b |-> Blk(<<Ev, [k |-> "break", n |-> 1]>>)]
InDef(f, i) == [k |-> "defi", x |-> "b" \o ToString(i), e |-> f]
InFor(f) == [k |-> "for", i |-> Mark(Lit(1)), c |-> f, u |-> Mark(Lit(1)), b |-> Blk(<<Ev, [k |-> "break", n |-> 1]>>)]
FormulaSeq == SetToSeq(Formulas)
FormulaPrograms ==
  [i \in 1..Len(FormulaSeq) |->
     LET f == FormulaSeq[i] IN Blk(<<InIf(f), InWhile(f), InDef(f, i), InFor(f), Ev>>)]

ASSUME /\ JsonSerialize("loops.json", SetToSeq(LoopPrograms))
       /\ JsonSerialize("formulas.json", FormulaPrograms)
       /\ PrintT(<<"programs", Cardinality(LoopPrograms), Len(FormulaSeq)>>)

VARIABLE x
Init == x = 0
Next == UNCHANGED x
Spec == Init /\ [][Next]_x
=============================================================================
