------------------------------ MODULE CollCheck -----------------------------
(***************************************************************************)
(* Judges recorded histories of collections.  A history makes versions,    *)
(* each from an earlier one; what every accessor says of a version is      *)
(* recorded when it is made and again whenever it changes.                 *)
(* A "poke" updates an entry of a map that has mutable ones; versions that *)
(* operations made of it or it of them may share the entry, copies not.    *)
(*                                                                         *)
(*  Results:  each result must have the content the operation describes    *)
(*  Old:      versions that may still be used must not change              *)
(*  Lends:    memory lent to bulk insertion must not change                *)
(* Where results are not judged, a version's content is what was seen.     *)
(***************************************************************************)
EXTENDS Collections
CONSTANTS Results, Old, Lends

IfBad(c, why) == IF c THEN {why} ELSE {}
NN(s) == Keep([i \in 1..Len(s) |-> NoNil(s[i])])
NP(s) == Keep([i \in 1..Len(s) |-> <<s[i][1], NoNil(s[i][2])>>])

(* A nil that a constructor was given may be seen as null; an operation makes *)
(* null of it.                                                               *)
Same(o, x) == NoNil(o) = NoNil(x) /\ (x = Null => o = Null)
AllSame(o, s) == Len(o) = Len(s) /\ \A i \in 1..Len(s) : Same(o[i], s[i])
PairsSame(o, s) == Len(o) = Len(s) /\ \A i \in 1..Len(s) : o[i][1] = s[i][1] /\ Same(o[i][2], s[i][2])

CellSelOk(s, k, o) ==
  LET x == IdxOf(k)
  IN IF ~LHas(s, x) THEN o = <<>>
     ELSE IF IsNullish(s[x+1]) THEN o = <<>> \/ NN(o) = << Null >>
     ELSE AllSame(o, << s[x+1] >>)

ObsOk(c, s, o, probes) ==
  IF c = "list" THEN
       IfBad(o.len # W64(Len(s)), "wrong length")
    \cup IfBad(~o.small, "wrong indexes")
    \cup IfBad(o.small /\ ~AllSame(o.values, s), "wrong values")
    \cup IfBad(~PairsSame(o.pairs, Keep([i \in 1..Len(s) |-> <<W64(i-1), s[i]>>])), "wrong items")
    \cup IfBad(~PairsSame(o.entries, Keep([i \in 1..Len(s) |-> <<IntText(i-1), s[i]>>])), "wrong entries")
    \cup IfBad(\E i \in 1..Len(probes) : ~Same(o.get[i], LGet(s, IdxOf(probes[i]))), "wrong lookup")
    \cup IfBad(\E i \in 1..Len(probes) : ~CellSelOk(s, probes[i], o.sel[i]), "wrong selection")
  ELSE
       IfBad(~PairsSame(o.pairs, s), IF c = "map" THEN "wrong entries" ELSE "wrong items")
    \cup IfBad(\E i \in 1..Len(probes) : ~Same(o.get[i], PGet(c, s, probes[i])), "wrong lookup")
    \cup IfBad(\E i \in 1..Len(probes) : ~AllSame(o.sel[i], PSelect(c, s, probes[i])), "wrong selection")
    \cup (IF c = "map" THEN
              IfBad(o.len # W64(Len(s)), "wrong length")
         \cup IfBad(o.keys # Keep([i \in 1..Len(s) |-> s[i][1]]), "wrong keys")
         \cup IfBad(~AllSame(o.values, Keep([i \in 1..Len(s) |-> s[i][2]])), "wrong values")
         \cup IfBad({ o.hash[i][1] : i \in 1..Len(o.hash) } # { s[i][1] : i \in 1..Len(s) }
                    \/ ~({ <<o.hash[i][1], NoNil(o.hash[i][2])>> : i \in 1..Len(o.hash) }
                         \subseteq { <<s[i][1], NoNil(s[i][2])>> : i \in 1..Len(s) }), "wrong hash map")
          ELSE
              IfBad(o.len # SLen(s), "wrong length")
         \cup IfBad(~PairsSame(o.entries, Keep([i \in 1..Len(s) |-> <<LongText(s[i][1]), s[i][2]>>])), "wrong entries")
         \cup IfBad(o.small /\ LET at == { s[j][1] : j \in 1..Len(s) }
                                  items == { <<s[j][1], NoNil(s[j][2])>> : j \in 1..Len(s) }
                              IN ~(W64(Len(o.values)) = SLen(s) /\ \A i \in 1..Len(o.values) :
                                     IF W64(i-1) \in at THEN <<W64(i-1), NoNil(o.values[i])>> \in items
                                     ELSE IsNullish(o.values[i])),
                    "wrong values"))

Seen(c, o) == IF c = "list" THEN Keep([i \in 1..Len(o.pairs) |-> o.pairs[i][2]]) ELSE o.pairs

CanonAll(vs) == Keep([i \in 1..Len(vs) |-> Canon(vs[i])])
CanonPairs(ps) == Keep([i \in 1..Len(ps) |-> <<ps[i][1], Canon(ps[i][2])>>])

(* the operation of a step, its values made canonical *)
OpOf(st) == << st[1], st[3],
               IF st[1] = "insertall" THEN CanonAll(st[4])
               ELSE IF st[1] \in {"append", "put", "insert", "update"} THEN Canon(st[4]) ELSE <<>> >>

ObsOf(r, i, o) == LET js == { j \in 1..Len(r.changed) : r.changed[j][1] = i }
                  IN IF js = {} THEN o ELSE r.changed[CHOOSE j \in js : TRUE][2]
Changed(r) == { r.changed[j][1] : j \in 1..Len(r.changed) }

(* the content of the version a step makes and what is wrong with it *)
Making(e, st, vs, r) ==
  IF st[1] = "new" THEN
    LET c == st[2]
        x == IF c = "list" \/ st[4] = "of" THEN CanonAll(st[6]) ELSE CanonPairs(st[6])
        s == IF Results THEN Made(c, st[4], x) ELSE Seen(c, r.obs)
    IN [coll |-> c, mut |-> st[3], dec |-> st[4] = "decoded", s |-> s,
        bad |-> IF Results THEN ObsOk(c, s, r.obs, e.probes) ELSE {}]
  ELSE LET v == vs[st[2]] IN
    IF st[1] = "copy" THEN
      [coll |-> "map", mut |-> st[3] # "copy", dec |-> FALSE, s |-> Seen("map", r.obs),
       bad |-> IfBad(r.obs # v.o, "the copy differs")]
    ELSE IF st[1] = "sub" THEN
      [coll |-> r.coll, mut |-> FALSE, dec |-> TRUE, s |-> Seen(r.coll, r.obs), bad |-> {}]
    ELSE LET s == IF Results THEN Apply(v.coll, v.s, OpOf(st)) ELSE Seen(v.coll, r.obs)
         IN [coll |-> v.coll, mut |-> v.mut, dec |-> v.dec, s |-> s,
             bad |-> IF Results THEN ObsOk(v.coll, s, r.obs, e.probes) ELSE {}]

Consumes(e, v) == v.mut /\ ~(v.coll = "sparse" /\ ~e.fast)

StepOk(e, st, vs, r) ==
  LET upd == st[1] = "update"
      poke == st[1] = "poke"
      quiet == st[1] \in {"update", "cell", "touch", "poke"}
      f == IF st[1] = "new" THEN 0 ELSE st[2]
      uses == f > 0 /\ ~quiet /\ st[1] \notin {"copy", "sub"}
      did == upd /\ r.ret
      (* versions that must still be what they were *)
      dies(i) == (uses /\ i = f /\ Consumes(e, vs[f]))
                 \/ (did /\ i # f /\ vs[f].coll = "sparse" /\ vs[i].coll = "sparse")
                 \* entries are shared with what operations make, not with copies
                 \/ (poke /\ i # f /\ vs[i].root = vs[f].root)
      old == Keep([i \in 1..Len(vs) |->
               LET o == ObsOf(r, i, vs[i].o)
               IN [vs[i] EXCEPT !.o = o, !.live = @ /\ ~dies(i),
                   !.s = IF poke /\ i = f THEN Seen(vs[i].coll, o)
                         ELSE IF did /\ i = f THEN (IF Results THEN Apply(vs[i].coll, @, OpOf(st)) ELSE Seen(vs[i].coll, o))
                         ELSE @]])
      m == IF quiet THEN [bad |-> {}] ELSE Making(e, st, vs, r)
      vs2 == IF quiet THEN old
             ELSE Append(old, [coll |-> m.coll, mut |-> m.mut, dec |-> m.dec, s |-> m.s, o |-> r.obs, live |-> TRUE,
                               root |-> IF st[1] \in {"new", "copy", "sub"} THEN Len(old) + 1 ELSE vs[f].root])
      bad ==
           IfBad(f > 0 /\ ~vs[f].live, "bad history: uses what an operation consumed")
      \cup m.bad
      \cup IfBad(Old /\ \E i \in Changed(r) : ~((did \/ poke) /\ i = f) /\ old[i].live, "another version changed")
      \cup IfBad(Lends /\ ~r.lent, "memory of the caller changed")
      \cup (IF ~upd THEN {} ELSE
                IfBad(r.ret /\ ~vs[f].mut /\ vs[f].coll # "sparse", "an immutable collection was updated")
           \cup IfBad(r.ret /\ ~Has(vs[f].coll, vs[f].s, st[3]), "an update of nothing is reported as done")
           \cup IfBad(~r.ret /\ vs[f].mut /\ ~vs[f].dec /\ Has(vs[f].coll, vs[f].s, st[3]), "an update is refused")
           \cup IfBad(~r.ret /\ f \in Changed(r), "a refused update changed something")
           \cup (IF did /\ Results THEN ObsOk(old[f].coll, old[f].s, old[f].o, e.probes) ELSE {})
           \cup IfBad(did /\ ~Results /\ LET s == vs[f].s IN
                         NP(old[f].o.pairs) #
                         NP(IF vs[f].coll = "list" THEN Keep([i \in 1..Len(s) |-> <<W64(i-1), LUpdate(s, IdxOf(st[3]), Canon(st[4]))[i]>>])
                            ELSE PUpdate(vs[f].coll, s, st[3], Canon(st[4]))), "the update did something else"))
      \cup IfBad(st[1] = "cell" /\ (r.ret \/ f \in Changed(r)), "a cell of an immutable collection was updated")
  IN [vs |-> vs2, bad |-> bad]

RECURSIVE HistFrom(_, _, _)
HistFrom(e, vs, i) ==
  IF i > Len(e.steps) THEN {}
  ELSE LET r == StepOk(e, e.steps[i], vs, e.obs[i])
       IN IF r.bad # {} THEN r.bad ELSE HistFrom(e, r.vs, i + 1)
HistOk(e) == HistFrom(e, <<>>, 1)
=============================================================================
