------------------------------- MODULE Exec -------------------------------
(* Operational specification of the execution of Alusus (SPP) programs:    *)
(* control flow, evaluation order, and the life of objects with custom     *)
(* init/terminate handlers.                                                *)
(*                                                                         *)
(* The machine is a CEK-style abstract machine: `ctl` is the control stack *)
(* (top = last), `vs` the value stack, `frs` the call frames (each one     *)
(* with its variables and its stack of destruction scopes), `mem` the      *)
(* objects.  One named action per kind of step.                            *)
(*                                                                         *)
(* Batch holds programs together with the event trace the real compiler   *)
(* and JIT produced for each; every initial state is one of the programs   *)
(* and the machine consumes its recorded trace event by event.  A state    *)
(* with st = "bad" is an observation that this specification does not      *)
(* allow.                                                                  *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC, Json

Batch == JsonDeserialize("batch.json")

VARIABLES p,     \* index of the program
          ctl,   \* control stack: sequence of <<tag, a, b>>
          vs,    \* value stack: integers (booleans as 0/1, objects as handles)
          frs,   \* frames: [vars, scs, cb]
          mem,   \* objects: [cls, ser, val, kids, alive]
          ser,   \* number of serials given so far
          tr,    \* number of events consumed
          st     \* "run", "done", "bad" or an internal error of the program

vars == <<p, ctl, vs, frs, mem, ser, tr, st>>

Prog == Batch[p]
N(i) == Prog.nodes[i]
Obs == Prog.obs
Cls(c) == Prog.classes[c]
Fn(f) == Prog.fns[f]

Top(s) == s[Len(s)]
Pop(s) == SubSeq(s, 1, Len(s) - 1)
PopN(s, n) == SubSeq(s, 1, Len(s) - n)
Last(s, k) == s[Len(s) - k]             \* k = 0 is the top
Rev(s) == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]

Fr == Top(frs)
SetFr(f) == [frs EXCEPT ![Len(frs)] = f]
Scs == Fr.scs
PushScope == SetFr([Fr EXCEPT !.scs = Append(@, <<>>)])
\* add handle h to the innermost destruction scope of the given frame
Reg(f, h) == [f EXCEPT !.scs[Len(f.scs)] = Append(@, h)]
SetVar(f, x, v) == [f EXCEPT !.vars = (x :> v) @@ @]

It == Top(ctl)
Tag == It[1]
Nd == N(It[2])
Rest == Pop(ctl)
\* push items so that the first one given is executed first
Do(items) == Rest \o Rev(items)

\* ------------------------------------------------------------------ events
\* An event is compared with the observed one at once.  A truncated observation
\* (too long to be kept) is only checked as a prefix.
Emit(e) ==
  IF tr < Len(Obs)
  THEN /\ tr' = tr + 1
       /\ st' = IF Obs[tr + 1] = e THEN "run" ELSE "bad"
  ELSE /\ tr' = tr
       /\ st' = IF Prog.trunc = 1 THEN "done" ELSE "bad"
Quiet == UNCHANGED <<tr, st>>
Fail(why) == st' = why /\ UNCHANGED tr

\* ----------------------------------------------------------- initialisation
Init ==
  /\ p \in 1..Len(Batch)
  /\ ctl = <<<<"body", Batch[p].fns[Batch[p].main].body, 0>>>>
  /\ vs = <<>>
  /\ frs = <<[vars |-> <<>>, scs |-> <<<<>>>>, cb |-> 0, ret |-> "none"]>>
  /\ mem = <<>>
  /\ ser = 0
  /\ tr = 0
  /\ st = "run"

On(t) == st = "run" /\ ctl # <<>> /\ Tag = t
OnN(t, k) == On(t) /\ Nd.k = k

\* --------------------------------------------------------------- statements
\* "body": run a statement list in the scope that is already open
Body ==
  /\ On("body")
  /\ LET l == Nd.l  i == It[3] + 1 IN
     IF i > Len(l) THEN ctl' = Rest
     ELSE ctl' = Rest \o <<<<"body", It[2], i>>, <<"stm", l[i], 0>>>>
  /\ UNCHANGED <<p, vs, frs, mem, ser>> /\ Quiet

\* a block: its own scope
Block ==
  /\ OnN("stm", "block")
  /\ ctl' = Do(<<<<"body", It[2], 0>>, <<"ends", 0, 0>>>>)
  /\ frs' = PushScope
  /\ UNCHANGED <<p, vs, mem, ser>> /\ Quiet

\* leaving a scope: destroy its objects in the order of their registration
EndScope ==
  /\ On("ends")
  /\ LET ds == Top(Scs) IN
       ctl' = Do([i \in 1..Len(ds) |-> <<"kill", ds[i], 0>>])
  /\ frs' = SetFr([Fr EXCEPT !.scs = Pop(@)])
  /\ UNCHANGED <<p, vs, mem, ser>> /\ Quiet

\* destroying one object: its own handler first, then its members in order
Kill ==
  /\ On("kill")
  /\ LET h == It[2]  o == mem[h] IN
     /\ mem' = [mem EXCEPT ![h].alive = FALSE]
     /\ ctl' = Do([i \in 1..Len(o.kids) |-> <<"kill", o.kids[i], 0>>])
     /\ IF ~o.alive THEN Fail("doubleDestroy")
        ELSE IF Cls(o.cls).own = 1 THEN Emit(<<"D", o.cls, o.ser, 0>>) ELSE Quiet
  /\ UNCHANGED <<p, vs, frs, ser>>

EvStm ==
  /\ OnN("stm", "ev")
  /\ ctl' = Rest
  /\ Emit(<<"E", Nd.n, 0, 0>>)
  /\ UNCHANGED <<p, vs, frs, mem, ser>>

\* expression statement: temporaries die at the end of the statement
ExprStm ==
  /\ OnN("stm", "expr")
  /\ ctl' = Do(<<<<"x", Nd.e, 0>>, <<"ends", 0, 0>>, <<"drop", 0, 0>>>>)
  /\ frs' = PushScope
  /\ UNCHANGED <<p, vs, mem, ser>> /\ Quiet

Drop ==
  /\ On("drop")
  /\ vs' = Pop(vs)
  /\ ctl' = Rest
  /\ UNCHANGED <<p, frs, mem, ser>> /\ Quiet

\* def x: Int = e
DefInt ==
  /\ OnN("stm", "defi")
  /\ ctl' = Do(<<<<"x", Nd.e, 0>>, <<"bind", It[2], 0>>, <<"ends", 0, 0>>>>)
  /\ frs' = PushScope
  /\ UNCHANGED <<p, vs, mem, ser>> /\ Quiet

Bind ==
  /\ On("bind")
  /\ frs' = SetFr(SetVar(Fr, Nd.x, Top(vs)))
  /\ vs' = Pop(vs)
  /\ ctl' = Rest
  /\ UNCHANGED <<p, mem, ser>> /\ Quiet

\* def x: C / C(e) / C(obj): the arguments are evaluated in a scope of their own,
\* then the object is constructed, registered in the enclosing scope, and the
\* temporaries of the arguments are destroyed.
DefObj ==
  /\ OnN("stm", "defo")
  /\ ctl' = Do((IF Nd.how = 0 THEN <<>> ELSE <<<<"x", Nd.e, 0>>>>)
               \o <<<<"make", It[2], Nd.how>>, <<"regvar", It[2], 0>>, <<"ends", 0, 0>>>>)
  /\ frs' = PushScope
  /\ UNCHANGED <<p, vs, mem, ser>> /\ Quiet

\* make: construct an object of class Nd.c; how: 0 default, 1 from an integer, 2 copy.
\* The members are initialised first, then the own init handler runs.
\* The handle of the new object is pushed.
RECURSIVE Alloc(_, _, _)
\* Alloc(c, m, how): append object of class c (and, before it, its members) to m
Alloc(c, m, v) ==
  LET ms == Cls(c).members
      RECURSIVE AllocKids(_, _, _)
      AllocKids(i, mm, ks) ==
        IF i > Len(ms) THEN <<mm, ks>>
        ELSE LET r == Alloc(ms[i].c, mm, 0) IN AllocKids(i + 1, r, Append(ks, Len(r)))
      mk == AllocKids(1, m, <<>>)
  IN Append(mk[1], [cls |-> c, ser |-> 0, val |-> v, kids |-> mk[2], alive |-> FALSE])

\* items that initialise object h (already allocated in m)
InitItems(m, h, how, arg) ==
  LET ms == Cls(m[h].cls).members IN
    [i \in 1..Len(ms) |-> <<"init", m[h].kids[i], IF ms[i].how = 1 THEN <<1, ms[i].v>> ELSE <<0, 0>>>>]
    \o <<<<"own", h, <<how, arg>>>>>>

Make ==
  /\ On("make")
  /\ LET m == Alloc(Nd.c, mem, 0)
         h == Len(m)
         arg == IF It[3] = 0 THEN 0 ELSE Top(vs)
     IN /\ mem' = m
        /\ vs' = Append(IF It[3] = 0 THEN vs ELSE Pop(vs), h)
        /\ ctl' = Do(<<<<"init", h, <<It[3], arg>>>>>>)
  /\ UNCHANGED <<p, frs, ser>> /\ Quiet

InitObj ==
  /\ On("init")
  /\ ctl' = Do(InitItems(mem, It[2], It[3][1], It[3][2]))
  /\ UNCHANGED <<p, vs, frs, mem, ser>> /\ Quiet

\* the own init handler: it takes the next serial number
Own ==
  /\ On("own")
  /\ ctl' = Rest
  /\ LET h == It[2]  how == It[3][1]  arg == It[3][2]  o == mem[h] IN
     IF Cls(o.cls).own = 0
     THEN mem' = [mem EXCEPT ![h].alive = TRUE] /\ ser' = ser /\ Quiet
     ELSE /\ ser' = ser + 1
          /\ IF how = 2
             THEN /\ mem' = [mem EXCEPT ![h] = [o EXCEPT !.alive = TRUE, !.ser = ser + 1, !.val = mem[arg].val]]
                  /\ IF mem[arg].alive THEN Emit(<<"K", o.cls, ser + 1, mem[arg].ser>>) ELSE Fail("useAfterDestroy")
             ELSE /\ mem' = [mem EXCEPT ![h] = [o EXCEPT !.alive = TRUE, !.ser = ser + 1, !.val = arg]]
                  /\ Emit(IF how = 0 THEN <<"I", o.cls, ser + 1, 0>> ELSE <<"C", o.cls, ser + 1, arg>>)
  /\ UNCHANGED <<p, vs, frs>>

\* the constructed variable belongs to the scope around the argument scope
RegVar ==
  /\ On("regvar")
  /\ LET k == Len(Scs) - 1 IN
       frs' = SetFr(SetVar([Fr EXCEPT !.scs[k] = Append(@, Top(vs))], Nd.x, Top(vs)))
  /\ vs' = Pop(vs)
  /\ ctl' = Rest
  /\ UNCHANGED <<p, mem, ser>> /\ Quiet

\* a temporary belongs to the innermost scope
RegTmp ==
  /\ On("regtmp")
  /\ frs' = SetFr(Reg(Fr, Top(vs)))
  /\ ctl' = Rest
  /\ UNCHANGED <<p, vs, mem, ser>> /\ Quiet

If ==
  /\ OnN("stm", "if")
  /\ ctl' = Do(<<<<"x", Nd.c, 0>>, <<"ends", 0, 0>>, <<"branch", It[2], 0>>>>)
  /\ frs' = PushScope
  /\ UNCHANGED <<p, vs, mem, ser>> /\ Quiet

\* the chosen body is a statement with a scope of its own
Branch ==
  /\ On("branch")
  /\ LET b == IF Top(vs) # 0 THEN Nd.a ELSE Nd.b IN
     IF b = 0 THEN /\ ctl' = Rest /\ frs' = frs
     ELSE /\ ctl' = Do(<<<<"stm", b, 0>>, <<"ends", 0, 0>>>>) /\ frs' = PushScope
  /\ vs' = Pop(vs)
  /\ UNCHANGED <<p, mem, ser>> /\ Quiet

While ==
  /\ OnN("stm", "while")
  /\ ctl' = Do(<<<<"loop", It[2], Len(Scs)>>>>)
  /\ UNCHANGED <<p, vs, frs, mem, ser>> /\ Quiet

\* for x = init, cond, upd
For ==
  /\ OnN("stm", "for")
  /\ ctl' = Do(<<<<"x", Nd.i, 0>>, <<"ends", 0, 0>>, <<"drop", 0, 0>>, <<"loop", It[2], Len(Scs)>>>>)
  /\ frs' = PushScope
  /\ UNCHANGED <<p, vs, mem, ser>> /\ Quiet

\* one iteration: the loop item stays below as the target of break and continue.
\* its third field is the number of scopes outside of the loop.
Loop ==
  /\ On("loop")
  /\ ctl' = Do(<<<<"x", Nd.c, 0>>, <<"ends", 0, 0>>, <<"test", It[2], It[3]>>>>)
  /\ frs' = PushScope
  /\ UNCHANGED <<p, vs, mem, ser>> /\ Quiet

Test ==
  /\ On("test")
  /\ IF Top(vs) = 0 THEN /\ ctl' = Rest /\ frs' = frs
     ELSE /\ ctl' = Do(<<<<"stm", Nd.b, 0>>, <<"ends", 0, 0>>, <<"upd", It[2], It[3]>>>>)
          /\ frs' = PushScope
  /\ vs' = Pop(vs)
  /\ UNCHANGED <<p, mem, ser>> /\ Quiet

\* end of the body of a loop: the updater of a for loop, then the next iteration
Upd ==
  /\ On("upd")
  /\ IF Nd.k = "for"
     THEN /\ ctl' = Do(<<<<"x", Nd.u, 0>>, <<"ends", 0, 0>>, <<"drop", 0, 0>>, <<"loop", It[2], It[3]>>>>)
          /\ frs' = PushScope
     ELSE /\ ctl' = Do(<<<<"loop", It[2], It[3]>>>>) /\ frs' = frs
  /\ UNCHANGED <<p, vs, mem, ser>> /\ Quiet

\* position in ctl of the n-th innermost enclosing loop ("upd" item)
RECURSIVE UpdPos(_, _)
UpdPos(i, n) == IF ctl[i][1] = "upd" THEN IF n = 1 THEN i ELSE UpdPos(i - 1, n - 1)
                ELSE UpdPos(i - 1, n)

RECURSIVE Flat(_)
Flat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Flat(Tail(ss))

\* kill items for all scopes of the current frame above the first k, outermost first
Unwind(k) == LET ds == Flat(SubSeq(Scs, k + 1, Len(Scs)))
             IN [i \in 1..Len(ds) |-> <<"kill", ds[i], 0>>]

BreakContinue ==
  /\ st = "run" /\ ctl # <<>> /\ Tag = "stm" /\ Nd.k \in {"break", "continue"}
  /\ LET u == UpdPos(Len(ctl), Nd.n)
         k == ctl[u][3]
         base == IF Nd.k = "break" THEN SubSeq(ctl, 1, u - 1) ELSE SubSeq(ctl, 1, u)
     IN /\ ctl' = base \o Rev(Unwind(k))
        /\ frs' = SetFr([Fr EXCEPT !.scs = SubSeq(@, 1, k)])
  /\ UNCHANGED <<p, vs, mem, ser>> /\ Quiet

Return ==
  /\ OnN("stm", "ret")
  /\ ctl' = Do((IF Nd.e = 0 THEN <<>> ELSE <<<<"x", Nd.e, 0>>>>)
               \o (IF Fr.ret = "obj" THEN <<<<"make", It[2], 2>>>> ELSE <<>>) \o <<<<"leave", It[2], 0>>>>)
  /\ UNCHANGED <<p, vs, frs, mem, ser>> /\ Quiet

\* leave the function: all its scopes are destroyed, then the frame is dropped
Leave ==
  /\ On("leave")
  /\ ctl' = SubSeq(ctl, 1, Fr.cb) \o <<<<"popf", 0, 0>>>> \o Rev(Unwind(0))
  /\ frs' = SetFr([Fr EXCEPT !.scs = <<>>])
  /\ UNCHANGED <<p, vs, mem, ser>> /\ Quiet

PopFrame ==
  /\ On("popf")
  /\ ctl' = Rest
  /\ frs' = Pop(frs)
  /\ UNCHANGED <<p, vs, mem, ser>> /\ Quiet

\* -------------------------------------------------------------- expressions
Lit ==
  /\ OnN("x", "lit")
  /\ vs' = Append(vs, Nd.n) /\ ctl' = Rest
  /\ UNCHANGED <<p, frs, mem, ser>> /\ Quiet

Var ==
  /\ OnN("x", "var")
  /\ vs' = Append(vs, Fr.vars[Nd.x]) /\ ctl' = Rest
  /\ UNCHANGED <<p, frs, mem, ser>> /\ Quiet

\* binary operators: right operand first
Bin ==
  /\ OnN("x", "bin")
  /\ ctl' = Do(<<<<"x", Nd.b, 0>>, <<"x", Nd.a, 0>>, <<"op", It[2], 0>>>>)
  /\ UNCHANGED <<p, vs, frs, mem, ser>> /\ Quiet

B2I(b) == IF b THEN 1 ELSE 0
Apply(op, a, b) ==
  CASE op = "+" -> a + b [] op = "-" -> a - b [] op = "*" -> a * b
    [] op = "<" -> B2I(a < b) [] op = ">" -> B2I(a > b) [] op = "==" -> B2I(a = b)
    [] op = "!=" -> B2I(a # b) [] op = "<=" -> B2I(a =< b) [] op = ">=" -> B2I(a >= b)

Op ==
  /\ On("op")
  /\ vs' = Append(PopN(vs, 2), Apply(Nd.op, Top(vs), Last(vs, 1)))
  /\ ctl' = Rest
  /\ UNCHANGED <<p, frs, mem, ser>> /\ Quiet

Not ==
  /\ OnN("x", "not")
  /\ ctl' = Do(<<<<"x", Nd.a, 0>>, <<"not", 0, 0>>>>)
  /\ UNCHANGED <<p, vs, frs, mem, ser>> /\ Quiet
DoNot ==
  /\ On("not")
  /\ vs' = Append(Pop(vs), 1 - Top(vs)) /\ ctl' = Rest
  /\ UNCHANGED <<p, frs, mem, ser>> /\ Quiet

\* logical operators: the right operand only when needed, with its own temporaries scope
Logic ==
  /\ OnN("x", "logic")
  /\ ctl' = Do(<<<<"x", Nd.a, 0>>, <<"sc", It[2], 0>>>>)
  /\ UNCHANGED <<p, vs, frs, mem, ser>> /\ Quiet
ShortCircuit ==
  /\ On("sc")
  /\ IF (Nd.op = "and") = (Top(vs) = 0)
     THEN ctl' = Rest /\ vs' = vs /\ frs' = frs
     ELSE /\ ctl' = Do(<<<<"x", Nd.b, 0>>, <<"ends", 0, 0>>>>)
          /\ vs' = Pop(vs)
          /\ frs' = PushScope
  /\ UNCHANGED <<p, mem, ser>> /\ Quiet

\* x = e, x += e (e first); ++x, x++, --x, x--
Assign ==
  /\ OnN("x", "asg")
  /\ ctl' = Do(<<<<"x", Nd.e, 0>>, <<"store", It[2], 0>>>>)
  /\ UNCHANGED <<p, vs, frs, mem, ser>> /\ Quiet
Store ==
  /\ On("store")
  /\ LET v == IF Nd.op = "=" THEN Top(vs)
              ELSE Apply(Nd.op, Fr.vars[Nd.x], Top(vs)) IN
     /\ frs' = SetFr(SetVar(Fr, Nd.x, v))
     /\ vs' = Append(Pop(vs), v)
  /\ ctl' = Rest
  /\ UNCHANGED <<p, mem, ser>> /\ Quiet
IncDec ==
  /\ OnN("x", "inc")
  /\ LET old == Fr.vars[Nd.x]  new == old + Nd.d IN
     /\ frs' = SetFr(SetVar(Fr, Nd.x, new))
     /\ vs' = Append(vs, IF Nd.post = 1 THEN old ELSE new)
  /\ ctl' = Rest
  /\ UNCHANGED <<p, mem, ser>> /\ Quiet

\* t(n, e): evaluates e, emits E n and yields e's value
Mark ==
  /\ OnN("x", "mark")
  /\ ctl' = Do(<<<<"x", Nd.e, 0>>, <<"emit", It[2], 0>>>>)
  /\ UNCHANGED <<p, vs, frs, mem, ser>> /\ Quiet
DoMark ==
  /\ On("emit")
  /\ ctl' = Rest
  /\ Emit(<<"E", Nd.n, 0, 0>>)
  /\ UNCHANGED <<p, vs, frs, mem, ser>>

\* temporary object C() / C(e) / C(obj)
Temp ==
  /\ OnN("x", "tmp")
  /\ ctl' = Do((IF Nd.how = 0 THEN <<>> ELSE <<<<"x", Nd.e, 0>>>>) \o <<<<"make", It[2], Nd.how>>, <<"regtmp", 0, 0>>>>)
  /\ UNCHANGED <<p, vs, frs, mem, ser>> /\ Quiet

\* member object: o.m<i>
Member ==
  /\ OnN("x", "mem")
  /\ ctl' = Do(<<<<"x", Nd.o, 0>>, <<"sub", It[2], 0>>>>)
  /\ UNCHANGED <<p, vs, frs, mem, ser>> /\ Quiet
DoMember ==
  /\ On("sub")
  /\ vs' = Append(Pop(vs), mem[Top(vs)].kids[Nd.i]) /\ ctl' = Rest
  /\ UNCHANGED <<p, frs, mem, ser>> /\ Quiet

\* o.get(): emits G
Get ==
  /\ OnN("x", "get")
  /\ ctl' = Do(<<<<"x", Nd.o, 0>>, <<"get", 0, 0>>>>)
  /\ UNCHANGED <<p, vs, frs, mem, ser>> /\ Quiet
DoGet ==
  /\ On("get")
  /\ LET o == mem[Top(vs)] IN
     /\ vs' = Append(Pop(vs), o.val)
     /\ IF o.alive THEN Emit(<<"G", o.cls, o.ser, 0>>) ELSE Fail("useAfterDestroy")
  /\ ctl' = Rest
  /\ UNCHANGED <<p, frs, mem, ser>>

\* o.add(e): the argument first, then the object
AddM ==
  /\ OnN("x", "addm")
  /\ ctl' = Do(<<<<"x", Nd.e, 0>>, <<"x", Nd.o, 0>>, <<"add", 0, 0>>>>)
  /\ UNCHANGED <<p, vs, frs, mem, ser>> /\ Quiet
DoAddM ==
  /\ On("add")
  /\ LET h == Top(vs)  o == mem[h]  a == Last(vs, 1) IN
     /\ mem' = [mem EXCEPT ![h].val = @ + a]
     /\ vs' = Append(PopN(vs, 2), o.val + a)
     /\ IF o.alive THEN Emit(<<"P", o.cls, o.ser, a>>) ELSE Fail("useAfterDestroy")
  /\ ctl' = Rest
  /\ UNCHANGED <<p, frs, ser>>

\* o1 = o2: right operand first
AssignObj ==
  /\ OnN("x", "asgo")
  /\ ctl' = Do(<<<<"x", Nd.b, 0>>, <<"x", Nd.a, 0>>, <<"ao", 0, 0>>>>)
  /\ UNCHANGED <<p, vs, frs, mem, ser>> /\ Quiet
DoAssignObj ==
  /\ On("ao")
  /\ LET h == Top(vs)  o == mem[h]  s == mem[Last(vs, 1)] IN
     /\ mem' = [mem EXCEPT ![h].val = s.val]
     /\ vs' = Append(PopN(vs, 2), 0)
     /\ IF o.alive /\ s.alive THEN Emit(<<"=", o.cls, o.ser, s.ser>>) ELSE Fail("useAfterDestroy")
  /\ ctl' = Rest
  /\ UNCHANGED <<p, frs, ser>>

\* function call: arguments left to right; by-value objects are copied into the
\* callee's first scope on entry, in parameter order
Call ==
  /\ OnN("x", "call")
  /\ ctl' = Do([i \in 1..Len(Nd.args) |-> <<"x", Nd.args[i], 0>>] \o <<<<"enter", It[2], 0>>>>
               \o (IF Fn(Nd.f).ret = "obj" THEN <<<<"regtmp", 0, 0>>>>
                   ELSE IF Fn(Nd.f).ret = "void" THEN <<<<"lit0", 0, 0>>>> ELSE <<>>))
  /\ UNCHANGED <<p, vs, frs, mem, ser>> /\ Quiet
Lit0 ==
  /\ On("lit0")
  /\ vs' = Append(vs, 0) /\ ctl' = Rest
  /\ UNCHANGED <<p, frs, mem, ser>> /\ Quiet

RECURSIVE BindArgs(_, _, _)
BindArgs(f, i, args) ==
  IF i > Len(args) THEN <<>>
  ELSE (Fn(f).params[i].x :> args[i]) @@ BindArgs(f, i + 1, args)

Enter ==
  /\ On("enter")
  /\ LET f == Nd.f
         n == Len(Nd.args)
         args == SubSeq(vs, Len(vs) - n + 1, Len(vs))
         byval == SelectSeq([i \in 1..n |-> i], LAMBDA i : Fn(f).params[i].t = "val")
     IN /\ frs' = Append(frs, [vars |-> BindArgs(f, 1, args), scs |-> <<<<>>>>, cb |-> Len(Rest), ret |-> Fn(f).ret])
        /\ vs' = PopN(vs, n)
        /\ ctl' = Do([i \in 1..Len(byval) |-> <<"arg", It[2], byval[i]>>]
                     \o <<<<"body", Fn(f).body, 0>>, <<"leave", 0, 0>>>>)
  /\ UNCHANGED <<p, mem, ser>> /\ Quiet

\* copy a by-value argument into the callee's variable
Arg ==
  /\ On("arg")
  /\ LET pr == Fn(Nd.f).params[It[3]]
         m == Alloc(pr.c, mem, 0)
         h == Len(m)
     IN /\ mem' = m
        /\ ctl' = Do(<<<<"init", h, <<2, Fr.vars[pr.x]>>>>>>)
        /\ frs' = SetFr(SetVar(Reg(Fr, h), pr.x, h))
  /\ UNCHANGED <<p, vs, ser>> /\ Quiet

Finish ==
  /\ st = "run" /\ ctl = <<>>
  /\ IF frs # <<>>
     THEN /\ ctl' = <<<<"leave", 0, 0>>>> /\ Quiet
     ELSE /\ ctl' = ctl
          /\ st' = IF tr = Len(Obs) THEN "done" ELSE "bad"
          /\ UNCHANGED tr
  /\ UNCHANGED <<p, vs, frs, mem, ser>>

Stutter == st # "run" /\ UNCHANGED vars

Next ==
  \/ Body \/ Block \/ EndScope \/ Kill \/ EvStm \/ ExprStm \/ Drop \/ DefInt \/ Bind \/ DefObj
  \/ Make \/ InitObj \/ Own \/ RegVar \/ RegTmp \/ If \/ Branch \/ While \/ For \/ Loop \/ Test \/ Upd
  \/ BreakContinue \/ Return \/ Leave \/ PopFrame \/ Lit \/ Var \/ Bin \/ Op \/ Not \/ DoNot
  \/ Logic \/ ShortCircuit \/ Assign \/ Store \/ IncDec \/ Mark \/ DoMark \/ Temp \/ Member \/ DoMember
  \/ Get \/ DoGet \/ AddM \/ DoAddM \/ AssignObj \/ DoAssignObj \/ Call \/ Lit0 \/ Enter \/ Arg
  \/ Finish \/ Stutter

Spec == Init /\ [][Next]_vars

\* -------------------------------------------------------------- properties
\* the recorded execution is an execution of this specification
Conforms == st # "bad"
\* the life of objects: no object is destroyed twice or used after its destruction ...
NoDoubleDestroy == st # "doubleDestroy"
NoUseAfterDestroy == st # "useAfterDestroy"
\* ... every object that is alive is owned by exactly one scope or owner (or is on the way there) ...
Owned == frs # <<>> => LET all == Flat([i \in 1..Len(frs) |-> Flat(frs[i].scs)])
         IN \A i, j \in 1..Len(all) : i # j => all[i] # all[j]
\* ... and when the program ends none is left
NoLeak == (st = "done" /\ Prog.trunc = 0) => \A h \in 1..Len(mem) : ~mem[h].alive
\* serial numbers are given once
SerialsUnique == st = "done" => \A i, j \in 1..Len(mem) : (i # j /\ mem[i].ser # 0) => mem[i].ser # mem[j].ser
=============================================================================
