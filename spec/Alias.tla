------------------------------- MODULE Alias --------------------------------
(***************************************************************************)
(* Where the content of values and of byte buffers lives.  Memory is a set *)
(* of regions; decoding with copying, reading from a source and            *)
(* serializing give regions of their own, decoding without copying gives   *)
(* the region of the input.  The library may keep a scratch region that a  *)
(* source is read into, and a region in which serializing starts.          *)
(* The caller overwrites what is his: inputs, and what serializing gave.   *)
(***************************************************************************)
EXTENDS Integers, Sequences

CONSTANTS CopyDecode,    \* decoding with copying copies
          CopyScratch,   \* reading copies out of the scratch region
          FreshOut,      \* what serializing gives has a region of its own
          NoPool,        \* and no other serialization starts in it
          MaxSteps, MaxBufs, MaxVals

VARIABLES mem,      \* content of the regions; 1 is the scratch, 2 the pool
          bufs,     \* the caller's: [reg, want]
          vals,     \* [reg, want, from |-> buffers it may share]
          hist
vars == << mem, bufs, vals, hist >>

Init == mem = << 0, 0 >> /\ bufs = <<>> /\ vals = <<>> /\ hist = <<>>

Did(s) == hist' = Append(hist, s)
Now == Len(hist) + 1            \* also a fresh content
NewReg(c) == mem' = Append(mem, c)
Reg == Len(mem) + 1
Buf(r, c) == bufs' = Append(bufs, [reg |-> r, want |-> c])
Value(r, c, from) == vals' = Append(vals, [reg |-> r, want |-> c, from |-> from, loose |-> FALSE])

Give == /\ Len(bufs) < MaxBufs
        /\ NewReg(Now) /\ Buf(Reg, Now) /\ Did(<< "fill" >>) /\ UNCHANGED vals
Decode(b, copy) ==
        /\ IF copy /\ CopyDecode
           THEN NewReg(mem[bufs[b].reg]) /\ Value(Reg, bufs[b].want, {})
           ELSE UNCHANGED mem /\ Value(bufs[b].reg, bufs[b].want, IF copy THEN {} ELSE {b})
        /\ Did(<< "unpack", b, copy >>) /\ UNCHANGED bufs
Read(b) == LET c == mem[bufs[b].reg]
               m == [mem EXCEPT ![1] = c]
           IN /\ IF CopyScratch THEN mem' = Append(m, c) /\ Value(Reg, bufs[b].want, {})
                 ELSE mem' = m /\ Value(1, bufs[b].want, {})
              /\ Did(<< "read", b >>) /\ UNCHANGED bufs
Pack(v) == LET c == mem[vals[v].reg]
               m == [mem EXCEPT ![2] = c]
           IN /\ Len(bufs) < MaxBufs /\ ~vals[v].loose
              /\ CASE ~FreshOut -> mem' = m /\ Buf(vals[v].reg, vals[v].want)
                   [] ~NoPool -> mem' = m /\ Buf(2, vals[v].want)
                   [] OTHER -> mem' = Append(m, c) /\ Buf(Reg, vals[v].want)
              /\ Did(<< "pack", v >>) /\ UNCHANGED vals
Scribble(b) ==
        /\ mem' = [mem EXCEPT ![bufs[b].reg] = -Now]
        /\ bufs' = [bufs EXCEPT ![b].want = -Now]
        /\ vals' = [v \in DOMAIN vals |-> [vals[v] EXCEPT !.loose = @ \/ b \in vals[v].from]]
        /\ Did(<< "scribble", b >>)

Next == /\ Len(hist) < MaxSteps
        /\ \/ Give
           \/ \E b \in 1..Len(bufs) :
                \/ (Len(vals) < MaxVals /\ bufs[b].want > 0) /\ (Decode(b, TRUE) \/ Decode(b, FALSE) \/ Read(b))
                \/ Scribble(b)
           \/ \E v \in 1..Len(vals) : Pack(v)

Kept == /\ \A v \in DOMAIN vals : ~vals[v].loose => mem[vals[v].reg] = vals[v].want
        /\ \A b \in DOMAIN bufs : mem[bufs[b].reg] = bufs[b].want
=============================================================================
