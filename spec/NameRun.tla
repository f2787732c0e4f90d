------------------------------ MODULE NameRun ------------------------------
(* The space: scopes 1 the program's module, 2 a module or class in it, 3 a function of it, 4 its body, 5 an inner
   block (the query's place); 6 and 7 are modules U and V beside 2.  One name, defined or not in each of them, and
   use U, use V each placed in one of the scopes or nowhere. *)
EXTENDS NameSpec, Json
CONSTANTS Mode
VARIABLES prog, st
Def(s, k, a) == [scope |-> s, name |-> "a", kind |-> k, arg |-> a, path |-> <<>>]
Sc(k, p) == [kind |-> k, parent |-> p]
Opt(s, c) == CASE c = 0 -> <<>> [] c = 1 -> <<Def(s, "var", 0)>> [] c = 2 -> <<Def(s, "var", 1)>>
               [] c = 3 -> <<Def(s, "param", 0)>> [] c = 4 -> <<Def(s, "shared", 0)>> [] c = 5 -> <<Def(s, "member", 0)>>
Use(s, n) == IF s = 0 THEN <<>> ELSE << [scope |-> s, path |-> <<n>>] >>
Space == {[scopes |-> <<Sc("mod", 0), Sc(k2, 1), Sc("fn", 2), Sc("blk", 3), Sc("blk", 4), Sc("mod", 1), Sc("mod", 1)>>,
           defs |-> << [scope |-> 1, name |-> "X", kind |-> "in", arg |-> 2, path |-> <<>>],
                       [scope |-> 1, name |-> "U", kind |-> "in", arg |-> 6, path |-> <<>>],
                       [scope |-> 1, name |-> "V", kind |-> "in", arg |-> 7, path |-> <<>>] >>
                    \o Opt(1, d1) \o Opt(2, IF k2 = "cls" /\ d2 = 1 THEN 4 ELSE d2) \o Opt(3, d3) \o Opt(4, d4) \o Opt(5, d5)
                    \o Opt(6, dU) \o Opt(7, dV),
           uses |-> Use(uU, "U") \o Use(uV, "V"),
           query |-> [scope |-> 5, form |-> "val", path |-> <<"a">>, arity |-> 0]] :
          k2 \in {"mod", "cls"}, d1 \in {0, 1}, d2 \in {0, 1, 5}, d3 \in {0, 3}, d4 \in {0, 1, 2, 4}, d5 \in {0, 1, 2},
          dU \in {0, 1}, dV \in {0, 1}, uU \in {0, 1, 2, 4, 5}, uV \in {0, 2, 5}}
Sane(p) == \A d \in DOMAIN p.defs : p.defs[d].kind = "member" => p.scopes[p.defs[d].scope].kind = "cls"
Batch == JsonDeserialize("batch.json").batch
Init == /\ prog \in IF Mode = "gen" THEN {p \in Space : Sane(p)} ELSE {Batch[i] : i \in DOMAIN Batch}
        /\ st = Start(prog)
Next == ~st.done /\ st' = Step(prog, st) /\ UNCHANGED prog
Spec == Init /\ [][Next]_<<prog, st>>
InvSound == Sound(prog, st)
InvVisible == Visible(prog, st)
InvStays == Stays(prog, st)
InvDirectFirst == DirectFirst(prog, st)
\* when two used modules offer a name, one of them through an alias, which of them is seen first is left open
Offers(s, n) == {d \in UNION {PathPlain(prog, s, prog.uses[u].path) : u \in {v \in DOMAIN prog.uses : prog.uses[v].scope = s}} :
                   Named(prog, prog.defs[d].arg, n) # {}}
Unsettled == \E s \in DOMAIN prog.scopes : \E n \in {prog.query.path[i] : i \in DOMAIN prog.query.path} :
               /\ Cardinality(Offers(s, n)) > 1
               /\ \E d \in Offers(s, n) : \E e \in Named(prog, prog.defs[d].arg, n) : prog.defs[e].kind = "alias"
Report == st.done => PrintT("@X " \o ToJson([p |-> prog, x |-> IF Outside(prog) \/ Unsettled THEN [kind |-> "outside", d |-> {}, why |-> ""] ELSE st.res]))
=============================================================================
