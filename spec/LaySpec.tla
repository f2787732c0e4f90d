------------------------------ MODULE LaySpec ------------------------------
(* The layout of objects in memory.

   Types: [k, w, e]; k is "int", "word", "flt" (w bits), "ptr", "ref" (8 bytes), "cls" (w: number of the class) or
   "arr" (w elements of type e[1]).  A class is the sequence of the types of its members.  Memory is a sequence of
   cells: a byte, -1 when nothing is said about it, or one byte of a pointer to cell k of a table (1000 + k). *)
EXTENDS Integers, Sequences, FiniteSets, TLC

RECURSIVE Align(_, _), Size(_, _), AlignAll(_, _), Offset(_, _, _)
AlignAll(cs, ms) == IF ms = <<>> THEN 1 ELSE LET a == Align(cs, Head(ms)) b == AlignAll(cs, Tail(ms)) IN IF a > b THEN a ELSE b
Align(cs, t) == CASE t.k \in {"int", "word", "flt"} -> IF t.w <= 8 THEN 1 ELSE t.w \div 8
                  [] t.k \in {"ptr", "ref"} -> 8
                  [] t.k = "cls" -> AlignAll(cs, cs[t.w])
                  [] t.k = "arr" -> Align(cs, t.e[1])
Up(n, a) == ((n + a - 1) \div a) * a
(* where member i of members ms starts; member Len(ms) + 1 is the end *)
Offset(cs, ms, i) == IF i = 1 THEN 0
                     ELSE LET e == Offset(cs, ms, i - 1) + Size(cs, ms[i - 1]) IN IF i > Len(ms) THEN e ELSE Up(e, Align(cs, ms[i]))
Size(cs, t) == CASE t.k \in {"int", "word", "flt"} -> IF t.w <= 8 THEN 1 ELSE t.w \div 8
                 [] t.k \in {"ptr", "ref"} -> 8
                 [] t.k = "cls" -> Up(Offset(cs, cs[t.w], Len(cs[t.w]) + 1), Align(cs, t))
                 [] t.k = "arr" -> t.w * Size(cs, t.e[1])

(* a path: the steps from an object inwards; a step is a member's number, or an element's index counted from 1 *)
Member(cs, t, i) == IF t.k = "arr" THEN t.e[1] ELSE cs[t.w][i]
Start(cs, t, i) == IF t.k = "arr" THEN (i - 1) * Size(cs, t.e[1]) ELSE Offset(cs, cs[t.w], i)
RECURSIVE At(_, _, _), TypeAt(_, _, _)
At(cs, t, path) == IF path = <<>> THEN 0 ELSE Start(cs, t, path[1]) + At(cs, Member(cs, t, path[1]), Tail(path))
TypeAt(cs, t, path) == IF path = <<>> THEN t ELSE TypeAt(cs, Member(cs, t, path[1]), Tail(path))

Count(cs, t) == IF t.k = "arr" THEN t.w ELSE IF t.k = "cls" THEN Len(cs[t.w]) ELSE 0
Leaf(t) == t.k \notin {"arr", "cls"}
RECURSIVE Leaves(_, _), Gather(_, _, _)
Gather(cs, t, i) == IF i > Count(cs, t) THEN <<>>
                    ELSE LET l == Leaves(cs, Member(cs, t, i)) IN [j \in 1..Len(l) |-> <<i>> \o l[j]] \o Gather(cs, t, i + 1)
Leaves(cs, t) == IF Leaf(t) THEN <<(<<>>)>> ELSE Gather(cs, t, 1)

LeafCells(cs, t, path) == LET a == At(cs, t, path) IN (a + 1)..(a + Size(cs, TypeAt(cs, t, path)))

Read(mem, cs, t, path) == LET a == At(cs, t, path) IN SubSeq(mem, a + 1, a + Size(cs, TypeAt(cs, t, path)))
Write(mem, cs, t, path, v) == LET a == At(cs, t, path) IN [i \in 1..Len(mem) |-> IF i > a /\ i <= a + Len(v) THEN v[i - a] ELSE mem[i]]
(* copying an object copies its leaves; what lies between them is anything *)
Copy(mem, cs, t, to, from) ==
  LET ty == TypeAt(cs, t, to)
      a == At(cs, t, to)  b == At(cs, t, from)
      data == UNION {LeafCells(cs, ty, l) : l \in {Leaves(cs, ty)[i] : i \in 1..Len(Leaves(cs, ty))}}
  IN [i \in 1..Len(mem) |-> IF i > a /\ i <= a + Size(cs, ty) THEN (IF i - a \in data THEN mem[b + i - a] ELSE -1) ELSE mem[i]]
=============================================================================
