-------------------------------- MODULE Heap --------------------------------
(***************************************************************************)
(* How collections share memory.  A collection is a slice of an array that *)
(* other collections may share; lists keep values in the cells, sparse     *)
(* lists and maps keep references to entries.  Operations follow one of    *)
(* three disciplines:                                                      *)
(*                                                                         *)
(*   copy   (immutable) never write to an array that exists                *)
(*   safe   (sparse lists without fast appends) the same, but entries may  *)
(*          be updated in place                                            *)
(*   grow   (mutable) write behind the end of a slice while its array has  *)
(*          room, and over the end of the receiver                         *)
(*                                                                         *)
(* The receiver of an operation under grow is not used afterwards.  Each   *)
(* live version must have the content the abstract operations of module    *)
(* Collections give it, and memory lent by the caller must not change.     *)
(***************************************************************************)
EXTENDS Collections

CONSTANTS Kind,         \* "list", "sparse" or "map"
          Discs,        \* disciplines of initial versions
          Copies,       \* whether copies between disciplines are made
          CopyArgs,     \* whether bulk insertion copies its argument
          FreshEntries, \* whether copies of maps have entries of their own
          Keys, Sizes, Slacks, MaxSteps

VARIABLES arr, ent, vers, lent, hist, at
vars == <<arr, ent, vers, lent, hist, at>>

Free == <<"free">>
Guard == <<"guard">>
Pairs == Kind # "list"

(* a fresh value for each step *)
Val(n, j) == <<"long", W64(100 * n + j)>>

Cells(v) == SubSeq(arr[v.a], v.off + 1, v.off + v.len)
Content(v) == IF Pairs THEN Keep([i \in 1..v.len |-> ent[Cells(v)[i]]]) ELSE Cells(v)

KeyAt(i) == IF Kind = "list" THEN W64(i) ELSE Keys[i]
(* the first content: the first n keys, in order *)
FirstContent(n) == Keep([i \in 1..n |-> IF Pairs THEN <<Keys[i], Val(0, i)>> ELSE Val(0, i)])

Init ==
  /\ \E d \in Discs, n \in Sizes, k \in Slacks :
       LET c == FirstContent(n)
       IN /\ ent = IF Pairs THEN c ELSE <<>>
          /\ arr = << (IF Pairs THEN Keep([i \in 1..n |-> i]) ELSE c) \o Fill(k, Free) >>
          /\ vers = << [a |-> 1, off |-> 0, len |-> n, live |-> TRUE, disc |-> d, s |-> c] >>
          /\ hist = << <<"new", d, k, c>> >>
  /\ lent = <<>>
  /\ at = 1

(***************************************************************************)
(* Memory: the results are [arr, a, off, len]                              *)
(***************************************************************************)
Fresh(ar, cells, cap) ==
  [arr |-> Append(ar, cells \o Fill(cap - Len(cells), Free)), a |-> Len(ar) + 1, off |-> 0, len |-> Len(cells)]
(* append cells behind the first n cells of slice v *)
Grow(ar, v, n, cells) ==
  LET cap == Len(ar[v.a]) - v.off
      m == n + Len(cells)
  IN IF m <= cap
     THEN [arr |-> [ar EXCEPT ![v.a] = Keep([i \in 1..Len(@) |->
                      IF i > v.off + n /\ i <= v.off + m THEN cells[i - v.off - n] ELSE @[i]])],
           a |-> v.a, off |-> v.off, len |-> m]
     ELSE Fresh(ar, SubSeq(ar[v.a], v.off + 1, v.off + n) \o cells, IF m > 2 * cap THEN m ELSE 2 * cap)
Share(ar, v, from, len) == [arr |-> ar, a |-> v.a, off |-> v.off + from, len |-> len]

(* replace `drop' cells after the first n of v by new *)
Edit(ar, v, n, drop, new) ==
  LET old == SubSeq(ar[v.a], v.off + 1, v.off + v.len)
      after == SubSeq(old, n + drop + 1, v.len)
      whole == SubSeq(old, 1, n) \o new \o after
  IN IF drop = 0 /\ new = <<>> THEN Share(ar, v, 0, v.len)
     ELSE IF new = <<>> /\ n = 0 THEN
       (IF v.disc = "copy" /\ ~Pairs THEN Fresh(ar, whole, Len(whole)) ELSE Share(ar, v, drop, v.len - drop))
     ELSE IF new = <<>> /\ n + drop = v.len THEN
       (IF v.disc = "copy" /\ ~Pairs THEN Fresh(ar, whole, Len(whole)) ELSE Share(ar, v, 0, n))
     ELSE IF v.disc = "grow" /\ v.len > 0 /\ ~(drop > 0 /\ new # <<>>) /\ (n > 0 \/ v.len = 0)
             /\ (n = v.len \/ (n + 1 = v.len /\ Len(new) = 1) \/ new = <<>>)
     THEN Grow(ar, v, n, new \o after)
     ELSE Fresh(ar, whole, Len(whole))

(***************************************************************************)
(* Operations                                                              *)
(***************************************************************************)
Where(v, k) == IF Pairs THEN Before(Kind, Content(v), k) ELSE IdxOf(k)
Hits(v, k) == IF Pairs THEN Count(Content(v), k) ELSE IF LHas(Content(v), IdxOf(k)) THEN 1 ELSE 0

(* the position, the cells dropped there and the keys and values that come in *)
Plan(v, op) ==
  LET w == IF op[1] = "append" THEN v.len ELSE Where(v, op[2])
      h == IF op[1] = "append" THEN 0 ELSE Hits(v, op[2])
      n == IF w > v.len THEN v.len ELSE w
      pad == IF ~Pairs /\ op[1] = "put" /\ w > v.len THEN Fill(w - v.len, Nil) ELSE <<>>
      key == IF op[1] = "append" /\ Pairs
             THEN (IF v.len = 0 THEN W64(0) ELSE Succ(Content(v)[v.len][1])) ELSE op[2]
  IN CASE w < 0 -> <<0, 0, key, <<>>>>
       [] op[1] \in {"append", "insert"} -> <<n, 0, key, << op[3] >>>>
       [] op[1] = "put" -> <<n, IF h > 0 THEN 1 ELSE 0, key, pad \o << op[3] >>>>
       [] op[1] = "insertall" -> <<n, 0, key, op[3]>>
       [] op[1] = "remove" -> <<n, IF h > 0 THEN 1 ELSE 0, key, <<>>>>
       [] op[1] = "deleteall" -> <<n, h, key, <<>>>>

Does(f, op) ==
  LET v == vers[f]
      p == Plan(v, op)
      es == Keep([i \in 1..Len(p[4]) |-> <<p[3], p[4][i]>>])
      ids == Keep([i \in 1..Len(p[4]) |-> Len(ent) + i])
      lends == op[1] = "insertall"
      (* the argument lies in an array of the caller between guards *)
      ar1 == IF lends THEN Append(arr, << Guard >> \o op[3] \o << Guard >>) ELSE arr
      (* a list into which nothing was put before takes the argument's own
         memory, if that is not copied *)
      steal == lends /\ ~CopyArgs /\ ~Pairs /\ v.disc = "grow" /\ v.len = 0 /\ p[4] # <<>>
      r == IF steal THEN [arr |-> ar1, a |-> Len(ar1), off |-> 1, len |-> Len(op[3])]
           ELSE Edit(ar1, v, p[1], p[2], IF Pairs THEN ids ELSE p[4])
      vs == IF v.disc = "grow" THEN [vers EXCEPT ![f].live = FALSE] ELSE vers
  IN /\ arr' = r.arr
     /\ ent' = IF Pairs THEN ent \o es ELSE ent
     /\ lent' = IF lends THEN Append(lent, <<Len(ar1), ar1[Len(ar1)]>>) ELSE lent
     /\ vers' = Append(vs, [a |-> r.a, off |-> r.off, len |-> r.len, live |-> TRUE, disc |-> v.disc,
                            s |-> Apply(Kind, v.s, op)])
     /\ hist' = Append(hist, <<op[1], f, op[2], op[3]>>)

(* updates in place; refused by immutable collections *)
Updates(f, k, x) ==
  LET v == vers[f]
      w == Where(v, k)
      yes == v.disc # "copy" /\ Hits(v, k) > 0
  IN /\ arr' = IF yes /\ ~Pairs THEN [arr EXCEPT ![v.a][v.off + w + 1] = x] ELSE arr
     /\ ent' = IF yes /\ Pairs THEN [ent EXCEPT ![Cells(v)[w + 1]][2] = x] ELSE ent
     (* versions of a sparse list share what is updated *)
     /\ vers' = Keep([i \in 1..Len(vers) |->
                  IF i = f THEN (IF yes THEN [v EXCEPT !.s = Apply(Kind, v.s, <<"update", k, x>>)] ELSE v)
                  ELSE IF yes /\ v.disc = "safe" THEN [vers[i] EXCEPT !.live = FALSE] ELSE vers[i]])
     /\ hist' = Append(hist, <<"update", f, k, x>>)
     /\ UNCHANGED lent

CopiesTo(f, d) ==
  LET v == vers[f]
      c == Content(v)
      ids == Keep([i \in 1..v.len |-> IF FreshEntries THEN Len(ent) + i ELSE Cells(v)[i]])
      r == Fresh(arr, ids, v.len)
  IN /\ arr' = r.arr
     /\ ent' = IF FreshEntries THEN ent \o c ELSE ent
     /\ vers' = Append(vers, [a |-> r.a, off |-> 0, len |-> v.len, live |-> TRUE, disc |-> d, s |-> v.s])
     /\ hist' = Append(hist, <<"copy", f, d, <<>>>>)
     /\ UNCHANGED lent

KeySet == IF Pairs THEN { Keys[i] : i \in 1..Len(Keys) } ELSE { W64(i) : i \in -1..(Len(Keys)) }
Next ==
  /\ at <= MaxSteps
  /\ at' = at + 1
  /\ \E f \in 1..Len(vers) :
       /\ vers[f].live
       /\ \/ Kind # "map" /\ Does(f, <<"append", <<>>, Val(at, 0)>>)
          \/ \E k \in KeySet :
               \/ \E o \in {"put", "insert"} : Does(f, <<o, k, Val(at, 0)>>)
               \/ \E o \in {"remove", "deleteall"} : Does(f, <<o, k, <<>>>>)
               \/ Does(f, <<"insertall", k, <<Val(at, 1), Val(at, 2)>>>>)
               \/ Updates(f, k, Val(at, 0))
          \/ Copies /\ \E d \in Discs : CopiesTo(f, d)
Spec == Init /\ [][Next]_vars

(***************************************************************************)
(* Properties                                                              *)
(***************************************************************************)
Intact == \A i \in 1..Len(vers) : vers[i].live => Content(vers[i]) = vers[i].s
Sorted == Pairs => \A i \in 1..Len(vers) : InOrder(Kind, vers[i].s)
LentIntact == \A i \in 1..Len(lent) : arr[lent[i][1]] = lent[i][2]
(* immutable versions keep what they had, whatever happens *)
Immutable == [][\A i \in 1..Len(vers) : vers[i].disc = "copy" => Content(vers[i])' = Content(vers[i])]_vars
Laws == \A i \in 1..Len(vers) : vers[i].live =>
  LET s == vers[i].s
  IN \A k \in KeySet :
     LET p == Apply(Kind, s, <<"put", k, Null>>)
         n == Apply(Kind, s, <<"insert", k, Null>>)
     IN IF Pairs
        THEN /\ PGet(Kind, p, k) = Null /\ PGet(Kind, n, k) = Null
             /\ Count(p, k) = (IF Count(s, k) = 0 THEN 1 ELSE Count(s, k))
             /\ Count(n, k) = Count(s, k) + 1
             /\ PRemove(Kind, n, k) = s
             /\ Count(PDeleteAll(Kind, s, k), k) = 0
             /\ (Count(s, k) = 0 => PDeleteAll(Kind, s, k) = s /\ PRemove(Kind, s, k) = s)
             /\ PSelect(Kind, n, k) = << Null >> \o PSelect(Kind, s, k)
             /\ \A j \in KeySet : j # k => PSelect(Kind, p, j) = PSelect(Kind, s, j)
                                           /\ PSelect(Kind, n, j) = PSelect(Kind, s, j)
        ELSE LET x == IdxOf(k)
             IN /\ (x >= 0 => LGet(p, x) = Null /\ (x <= Len(s) => LRemove(n, x) = s))
                /\ (x < 0 => p = s /\ n = s)
                /\ \A j \in 0..(Len(s) - 1) : j # x => LGet(p, j) = LGet(s, j)
                /\ Len(n) = Len(s) + (IF x < 0 THEN 0 ELSE 1)
=============================================================================
