------------------------------ MODULE GramRun ------------------------------
(* Mode "gen": every token sequence up to length N that is a prefix of some expression, plus one token that ends it.
   Mode "batch": given sequences.  Every sequence read to its end is checked against the relation and reported. *)
EXTENDS GramSpec, Json
CONSTANTS Mode, N, Alphabet, CheckTo
VARIABLES toks, m
Batch == JsonDeserialize("batch.json").batch
Init == /\ m = Init0
        /\ IF Mode = "gen" THEN toks = <<>> ELSE toks \in {Batch[i] : i \in DOMAIN Batch}
Stopped == m.err \/ m.jux
Next == /\ ~Stopped
        /\ IF Mode = "gen" THEN Len(toks) < N /\ \E c \in Alphabet : toks' = Append(toks, c) /\ m' = Shift(m, c)
           ELSE m.n < Len(toks) /\ m' = Shift(m, toks[m.n + 1]) /\ UNCHANGED toks
Spec == Init /\ [][Next]_<<toks, m>>
AtEnd == m.n > 0 /\ (Stopped \/ m.n = Len(toks))
Expect == IF Accepting(m) THEN [ok |-> TRUE, at |-> 0, trees |-> Result(m)]
          ELSE [ok |-> FALSE, at |-> IF m.err THEN m.n ELSE 0, trees |-> <<>>]
InvGrammar == (AtEnd /\ ~m.jux /\ Len(toks) <= CheckTo) => Derive(toks) = (IF Accepting(m) THEN {Result(m)} ELSE {})
InvYield == (AtEnd /\ Accepting(m)) =>
   LET y == YieldAll(Result(m)) IN Ordered(y) /\ {y[i] : i \in DOMAIN y} = {i \in DOMAIN toks : toks[i] \notin {",", ";", ")", "]", "}"}}
\* A "}" without its "{" ends what surrounds the statements, and a "{" left open takes the text that follows: set aside.
Outside == \/ m.err /\ toks[m.n] = "}" /\ m.st[Innermost(m.st)].x = "top"
           \/ ~m.err /\ ~Accepting(m) /\ m.st[Innermost(m.st)].x \in {"{"}
Report == (AtEnd /\ ~m.jux /\ ~Outside) => PrintT("@X " \o ToJson([p |-> toks, x |-> Expect]))
=============================================================================
