-------------------------------- MODULE Conc --------------------------------
(***************************************************************************)
(* Threads that use the same immutable values and struct types.  An        *)
(* operation is a sequence of reads and writes of cells, and of atomic     *)
(* loads and stores of the schema cache.  A version is a slice of an       *)
(* array that other versions share and that may have room behind it.       *)
(*                                                                         *)
(*   read   reads the cells of a version                                   *)
(*   derive makes a version with one more cell: of its own array (design)  *)
(*          or in the room behind the receiver (Grow)                      *)
(*   show   reads the cells; with Lazy, keeps what it made in the version  *)
(*   schema looks up the schema of a type, and if there is none makes it   *)
(*          and stores it when it is complete, or before (Early)           *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

CONSTANTS Threads, MaxOps, Grow, Lazy, Early

(* versions 1 and 2 share array 1; array 2 is what Lazy keeps *)
Vers == << [a |-> 1, len |-> 1], [a |-> 1, len |-> 2] >>
Room == 9
FirstMem == << << 11, 12, Room >>, << 0, 0 >> >>
Types == 1..2
Other(ty) == 3 - ty              \* the types refer to each other

Ops == {<< "read", 1 >>, << "read", 2 >>, << "derive", 1 >>, << "derive", 2 >>, << "show", 1 >>,
        << "schema", 1 >>, << "schema", 2 >>}
Programs == UNION { [1..n -> Ops] : n \in 1..MaxOps }

VARIABLES mem, cache, thr
vars == << mem, cache, thr >>

Idle(p) == [prog |-> p, pc |-> 1, todo |-> <<>>, got |-> <<>>, out |-> <<>>, busy |-> FALSE]
Init == /\ mem = FirstMem /\ cache = [ty \in Types |-> 0]
        /\ \E ps \in [Threads -> Programs] : thr = [t \in Threads |-> Idle(ps[t])]

Reads(a, n) == [i \in 1..n |-> << "r", a, i >>]
New(t) == 100 + t                \* what thread t adds

Start(t) ==
  LET x == thr[t]
      op == x.prog[x.pc]
      v == Vers[op[2]]
      todo == CASE op[1] = "read" -> Reads(v.a, v.len)
                [] op[1] = "show" -> Reads(v.a, v.len) \o (IF Lazy THEN << << "w", 2, op[2], 7 >> >> ELSE <<>>)
                [] op[1] = "derive" ->
                     IF Grow /\ v.len < Len(mem[v.a])
                     THEN << << "w", v.a, v.len + 1, New(t) >> >> \o Reads(v.a, v.len + 1)
                     ELSE Reads(v.a, v.len) \o << << "new", New(t) >> >>
                [] op[1] = "schema" -> << << "load", op[2] >> >>
  IN /\ ~x.busy /\ x.pc <= Len(x.prog)
     /\ thr' = [thr EXCEPT ![t].todo = todo, ![t].got = <<>>, ![t].busy = TRUE]
     /\ UNCHANGED << mem, cache >>

Step(t) ==
  LET x == thr[t]
      a == x.todo[1]
      go(m, c, more, got) ==
        /\ mem' = m /\ cache' = c
        /\ thr' = [thr EXCEPT ![t].todo = more \o Tail(@), ![t].got = got]
      fresh == Len(mem) + 1
      fill == << << "w", fresh, 1, a[2] >>, << "w", fresh, 2, Other(a[2]) >> >>
      store == << << "store", a[2], fresh >> >>
  IN /\ x.busy /\ x.todo # <<>>
     /\ CASE a[1] = "r" -> go(mem, cache, <<>>, Append(x.got, mem[a[2]][a[3]]))
          [] a[1] = "w" -> go([mem EXCEPT ![a[2]][a[3]] = a[4]], cache, <<>>, x.got)
          [] a[1] = "new" -> go(Append(mem, Append(x.got, a[2])), cache, <<>>, Append(x.got, a[2]))
          [] a[1] = "load" ->
               IF cache[a[2]] # 0 THEN go(mem, cache, Reads(cache[a[2]], 2), x.got)
               ELSE go(Append(mem, << 0, 0 >>), cache,
                       (IF Early THEN store \o fill ELSE fill \o store) \o Reads(fresh, 2), x.got)
          [] a[1] = "store" -> go(mem, [cache EXCEPT ![a[2]] = a[3]], <<>>, x.got)

End(t) == /\ thr[t].busy /\ thr[t].todo = <<>>
          /\ thr' = [thr EXCEPT ![t].out = Append(@, thr[t].got), ![t].busy = FALSE, ![t].pc = @ + 1]
          /\ UNCHANGED << mem, cache >>

Next == \E t \in Threads : Start(t) \/ Step(t) \/ End(t)

(* what an operation gives alone *)
Alone(t, op) ==
  CASE op[1] \in {"read", "show"} -> SubSeq(FirstMem[1], 1, Vers[op[2]].len)
    [] op[1] = "derive" -> Append(SubSeq(FirstMem[1], 1, Vers[op[2]].len), New(t))
    [] op[1] = "schema" -> << op[2], Other(op[2]) >>
AsAlone == \A t \in Threads : \A i \in 1..Len(thr[t].out) : thr[t].out[i] = Alone(t, thr[t].prog[i])

(* two threads about to use a cell, one of them to write it *)
At(t) == IF thr[t].busy /\ thr[t].todo # <<>> /\ thr[t].todo[1][1] \in {"r", "w"}
         THEN << thr[t].todo[1][1], << thr[t].todo[1][2], thr[t].todo[1][3] >> >> ELSE << "no", << 0, 0 >> >>
NoRace == \A s, t \in Threads : s # t /\ At(s)[1] # "no" /\ At(t)[2] = At(s)[2] => At(s)[1] = "r" /\ At(t)[1] = "r"
(* versions keep their content *)
Same == SubSeq(mem[1], 1, 2) = SubSeq(FirstMem[1], 1, 2)
=============================================================================
