----------------------------- MODULE IntMachine -----------------------------
(* A register machine over typed integers.  The batch holds programs (register types and instructions) and
   histories (initial register values, the instructions executed and what the real code printed after each).
   Instruction: [form, op, d, a, b]: registers d, a, b
     bin   d = a op b          comp  a op= b ; d = a        un   d = op a (a changes for ++ and --)
     cast  d = a~cast[type of b]
     flt, fcmp, fcast: the same through floating point, where every integer involved is exact
   A step first loads some registers, then executes one instruction. *)
EXTENDS IntSpec, Json
Batch == JsonDeserialize("batch.json").batch      \* [types, instrs, hists]
VARIABLES p, h, k, regs

Types == Batch[p].types
Ty(r) == Types[r]
Hist == Batch[p].hists[h]

Wide == [s |-> TRUE, n |-> 64]
Result(i, R) ==   \* <<value, type>> of the instruction's expression
  LET t1 == Ty(i.a) IN
  CASE i.form = "flt" -> <<Arith(i.op, Wide, Convert(R[i.a], t1, Wide), Convert(R[i.b], Ty(i.b), Wide)), Wide>>
    [] i.form = "fcmp" -> <<Compare(i.op, Wide, Convert(R[i.a], t1, Wide), Convert(R[i.b], Ty(i.b), Wide)), BoolType>>
    [] i.form = "bin" -> <<BinValue(i.op, R[i.a], t1, R[i.b], Ty(i.b)), BinType(i.op, t1, Ty(i.b))>>
    [] i.form = "comp" -> <<CompValue(i.op, R[i.a], t1, R[i.b], Ty(i.b)), t1>>
    [] i.form = "un" -> <<UnValue(i.op, R[i.a]), UnType(i.op, t1)>>
    [] i.form \in {"cast", "fcast"} -> <<Convert(R[i.a], t1, Ty(i.b)), Ty(i.b)>>
Touched(i, R) ==  \* the operand a after the instruction
  CASE i.form = "comp" -> CompValue(i.op, R[i.a], Ty(i.a), R[i.b], Ty(i.b))
    [] i.form = "un" -> Stepped(i.op, R[i.a])
    [] OTHER -> R[i.a]
InDomain(i, R) == /\ i.form \in {"bin", "comp"} => BinInDomain(i.op, R[i.a], Ty(i.a), R[i.b], Ty(i.b))
                  /\ i.form = "un" => UnInDomain(i.op, R[i.a], Ty(i.a))
Step(i, R) == LET v == Result(i, R)
                  R1 == [R EXCEPT ![i.a] = Touched(i, R)]
              IN TLCEval([R1 EXCEPT ![i.d] = Convert(v[1], v[2], Ty(i.d))])

\* is the instruction accepted by the compiler
Accepted(i) ==
  LET t1 == Ty(i.a) IN
  CASE i.form = "flt" -> Castable(Wide, Ty(i.d))
    [] i.form = "fcmp" -> TRUE
    [] i.form = "fcast" -> Castable(Ty(i.b), Ty(i.d))
    [] i.form = "bin" -> BinDefined(i.op, t1, Ty(i.b)) /\ Castable(BinType(i.op, t1, Ty(i.b)), Ty(i.d))
    [] i.form = "comp" -> CompDefined(i.op, t1, Ty(i.b)) /\ Castable(t1, Ty(i.d))
    [] i.form = "un" -> UnDefined(i.op, t1) /\ Castable(UnType(i.op, t1), Ty(i.d))
    [] i.form = "cast" -> Castable(t1, Ty(i.b)) /\ Castable(Ty(i.b), Ty(i.d))

Load(t, l) == Limbs(l, Width(t))
Show(t, v) == OfLimbs(Convert(v, t, [s |-> FALSE, n |-> 64]))

Init == /\ p \in DOMAIN Batch
        /\ h \in DOMAIN Batch[p].hists
        /\ k = 0
        /\ regs = [r \in DOMAIN Batch[p].types |-> Load(Batch[p].types[r], Batch[p].hists[h].init[r])]
\* an instruction outside its domain is skipped by the trace (the driver is told not to run it)
Loaded == LET sets == Hist.steps[k + 1][2]
          IN TLCEval([r \in DOMAIN Types |->
               IF \E j \in DOMAIN sets: sets[j][1] = r
               THEN Load(Ty(r), sets[CHOOSE j \in DOMAIN sets: sets[j][1] = r][2]) ELSE regs[r]])
Instr(j) == Batch[p].instrs[Hist.steps[j][1]]
Next == /\ k < Len(Hist.steps)
        /\ k' = k + 1
        /\ regs' = Step(Instr(k + 1), Loaded)
        /\ UNCHANGED <<p, h>>
Spec == Init /\ [][Next]_<<p, h, k, regs>>
\* what was printed after step k: <<register d, register a>> as 64-bit words
Conforms == k > 0 => LET i == Instr(k)
                     IN Hist.obs[k] = <<Show(Ty(i.d), regs[i.d]), Show(Ty(i.a), regs[i.a])>>
Domain == k < Len(Hist.steps) => InDomain(Instr(k + 1), Loaded)
\* every instruction of the program is accepted or rejected as specified
Verdicts == (h = 1 /\ k = 0) => \A j \in DOMAIN Batch[p].instrs: Batch[p].instrs[j].ok = Accepted(Batch[p].instrs[j])
TypeInv == \A r \in DOMAIN Types: Len(regs[r]) = Width(Ty(r))
=============================================================================
