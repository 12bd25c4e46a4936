----------------------------- MODULE AliasCheck -----------------------------
(***************************************************************************)
(* Histories of buffers and values, as the driver recorded them.  The      *)
(* steps make buffers ("fill", "pack" ...) and values ("unpack", "next"    *)
(* ...), numbered in order; e.res says how each went.  e.obs has           *)
(*   <<step, "v", number, abstract value, serialization>>                  *)
(*   <<step, "b", number, bytes>>                                          *)
(* for the first observation of each, and whenever one differs from the    *)
(* one before.                                                             *)
(***************************************************************************)
EXTENDS CodecCheck

(* the number of the first observation of value i *)
RECURSIVE FirstFrom(_, _, _, _)
FirstFrom(obs, kind, i, n) == IF n > Len(obs) THEN 0
                              ELSE IF obs[n][2] = kind /\ obs[n][3] = i THEN n ELSE FirstFrom(obs, kind, i, n + 1)

Guards(b) == Fill(16, 238) \o b \o Fill(16, 238)

(* s: vals |-> <<[want, from, at]>>, bufs |-> <<[want, at, mine]>>, rdrs |-> <<[data, pos]>> *)
(* want of a value: what may be seen; of a buffer: its versions <<step, bytes>>             *)
AddVal(s, want, from, i) == [s EXCEPT !.vals = Append(@, [want |-> want, from |-> from, loose |-> 1000000])]
AddBuf(s, want, mine, i) ==     \* want: <<"bytes", b>>, <<"open">>: any, <<"all", x>>: all x
  [s EXCEPT !.bufs = Append(@, [want |-> << << i, want >> >>, mine |-> mine])]
Newest(s, b) == LET w == s.bufs[b].want IN w[Len(w)][2]
Latest(s, b) == Newest(s, b)[2]
FromOf(s, xs) == UNION {s.vals[xs[k]].from : k \in 1..Len(xs)}
Seen(e, v) == LET n == FirstFrom(e.obs, "v", v, 1) IN IF n = 0 THEN Null ELSE e.obs[n][4]

(* r[1] "ok": a value was decoded; the others add nothing *)
Decoded(e, i, s, d, from) ==
  LET r == e.res[i]
  IN IF r[1] = "ok" THEN [s |-> AddVal(s, IF d[1] = "ok" THEN d[2] ELSE <<"nothing">>, from, i),
                          bad |-> If(d[1] # "ok", "decoded what is no value")]
     ELSE [s |-> s, bad |-> If(d[1] = "ok", "value rejected")]

Step(e, i, s) ==
  LET x == e.steps[i]
      fine(t) == [s |-> t, bad |-> If(e.res[i] # <<"ok">>, "step failed")]
      packed(vs) == Concat(Keep([k \in 1..Len(vs) |-> Enc(NoNil(Seen(e, vs[k])))]))
  IN CASE x[1] = "fill" -> fine(AddBuf(s, <<"bytes", x[2]>>, Len(x) = 2, i))
       [] x[1] = "fillv" -> fine(AddBuf(s, <<"bytes", Enc(NoNil(Canon(x[2])))>>, TRUE, i))
       [] x[1] \in {"unpack", "into"} -> Decoded(e, i, s, Decode(Latest(s, x[2])), IF x[3] THEN {} ELSE {x[2]})
       [] x[1] = "raw" -> fine(AddVal(s, <<"raw", Latest(s, x[2])>>, IF x[3] THEN {} ELSE {x[2]}, i))
       [] x[1] = "source" -> fine([s EXCEPT !.rdrs = Append(@, [data |-> Latest(s, x[2]), pos |-> 1])])
       [] x[1] = "next" -> LET q == s.rdrs[x[2]]
                               d == Dec(q.data, q.pos)
                               t == Decoded(e, i, s, d, {})
                           IN [t EXCEPT !.s.rdrs[x[2]].pos = IF d[1] = "ok" THEN d[3] ELSE @]
       [] x[1] = "pack" -> fine(AddBuf(s, IF x[3] = "json" THEN <<"open">> ELSE <<"bytes", packed(<< x[2] >>)>>, FALSE, i))
       [] x[1] = "packs" -> fine(AddBuf(s, <<"bytes", packed(x[2])>>, FALSE, i))
       [] x[1] = "list" -> fine(AddVal(s, <<"list", Keep([k \in 1..Len(x[2]) |-> NoNil(Seen(e, x[2][k]))])>>, FromOf(s, x[2]), i))
       [] x[1] = "scribble" ->
            LET b == x[2]
                now == Newest(s, b)
                w == IF now[1] = "bytes" THEN <<"bytes", Fill(Len(now[2]), x[3])>> ELSE <<"all", x[3]>>
            IN fine([s EXCEPT !.bufs[b].want = Append(@, << i, w >>),
                              !.vals = [k \in DOMAIN @ |-> IF b \in @[k].from /\ @[k].loose > i
                                                           THEN [@[k] EXCEPT !.loose = i] ELSE @[k]]])
       [] x[1] = "touch" -> fine(s)

RECURSIVE StepsOf(_, _, _, _)
StepsOf(e, i, s, bad) == IF i > Len(e.steps) THEN [s |-> s, bad |-> bad]
                         ELSE LET t == Step(e, i, s) IN StepsOf(e, i + 1, t.s, bad \cup t.bad)

(* what buffer b holds after step i *)
RECURSIVE VersionAt(_, _, _)
VersionAt(w, i, n) == IF n = 1 \/ w[n][1] <= i THEN w[n][2] ELSE VersionAt(w, i, n - 1)

AliasOk(e) ==
  LET r == StepsOf(e, 1, [vals |-> <<>>, bufs |-> <<>>, rdrs |-> <<>>], {})
      ok(o, n) ==
        IF o[2] = "v"
        THEN LET v == r.s.vals[o[3]]
             IN IF o[1] >= v.loose THEN {}
                ELSE If(~Match(v.want, o[4]), "value is not what was decoded, or changed")
                     \cup If(o[5] # Enc(NoNil(o[4])), "serialization is not that of the value")
                     \cup If(FirstFrom(e.obs, "v", o[3], 1) # n, "value changed")
        ELSE LET b == r.s.bufs[o[3]]
                 w == VersionAt(b.want, o[1], Len(b.want))
             IN CASE w[1] = "open" -> If(FirstFrom(e.obs, "b", o[3], 1) # n, "buffer changed")
                  [] w[1] = "all" -> If(\E k \in 1..Len(o[4]) : o[4][k] # w[2], "buffer changed")
                  [] OTHER -> If(o[4] # (IF b.mine THEN Guards(w[2]) ELSE w[2]), "buffer changed, or not the serialization")
      missing == \/ \E v \in 1..Len(r.s.vals) : FirstFrom(e.obs, "v", v, 1) = 0
                 \/ \E b \in 1..Len(r.s.bufs) : FirstFrom(e.obs, "b", b, 1) = 0
  IN IF r.bad # {} THEN r.bad
     ELSE If(missing, "not observed") \cup UNION { ok(e.obs[n], n) : n \in 1..Len(e.obs) }
=============================================================================
