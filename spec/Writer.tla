-------------------------------- MODULE Writer -----------------------------
(***************************************************************************)
(* Serializing to a destination that may fail.  A packer issues its calls  *)
(* one after the other, each as one or more pieces (header, payload).  The *)
(* destination accepts bytes up to some point, where it takes a part of a  *)
(* piece or nothing of it and reports a failure; a later piece, if one     *)
(* came, might be accepted again.  The packer keeps the first failure:     *)
(* after it nothing more may reach the destination, and every entry point  *)
(* reports it.                                                             *)
(***************************************************************************)
EXTENDS CodecCheck, TLC

CONSTANTS Programs       \* sequences of calls

VARIABLES prog, limit, whole,   \* calls, the byte at which the destination fails, and how
          at, piece,            \* call and piece to issue next
          accepted, failed, err, after, errs
vars == <<prog, limit, whole, at, piece, accepted, failed, err, after, errs>>

Pieces(c) ==
  CASE c[1] = "str" -> << StrHead(Len(c[2])), c[2] >>
    [] c[1] = "bin" -> << BinHead(Len(c[2])), c[2] >>
    [] c[1] = "ext" -> << ExtHead(Len(c[2]) - 1), c[2] >>
    [] OTHER -> << CallBytes(c) >>
Total(p) == Concat(Keep([i \in 1..Len(p) |-> CallBytes(p[i])]))

Init == /\ prog \in Programs /\ limit \in 0..Len(Total(prog)) /\ whole \in BOOLEAN
        /\ at = 1 /\ piece = 1 /\ accepted = <<>> /\ failed = FALSE /\ err = FALSE
        /\ after = 0 /\ errs = <<>>

Step ==
  /\ at <= Len(prog)
  /\ LET ps == Pieces(prog[at])
         b == ps[piece]
         room == limit - Len(accepted)
         breaks == ~failed /\ Len(b) > room
         last == piece = Len(ps)
     IN /\ IF err \/ b = <<>>
           THEN UNCHANGED <<accepted, failed, after, err>>
           ELSE /\ accepted' = accepted \o (IF failed \/ ~breaks THEN b
                                            ELSE IF whole THEN <<>> ELSE SubSeq(b, 1, room))
                /\ after' = IF failed THEN after + 1 ELSE after
                /\ failed' = (failed \/ breaks)
                /\ err' = breaks
        /\ IF last THEN at' = at + 1 /\ piece' = 1 ELSE at' = at /\ piece' = piece + 1
        /\ errs' = IF last THEN Append(errs, err') ELSE errs
  /\ UNCHANGED <<prog, limit, whole>>

Done == at > Len(prog) /\ UNCHANGED vars
Next == Step \/ Done
Spec == Init /\ [][Next]_vars /\ WF_vars(Step)

Prefix == IsPrefixOf(accepted, Total(prog))
Sticky == /\ after = 0
          /\ failed = err
          /\ \A i \in 1..Len(errs), j \in 1..Len(errs) : i < j /\ errs[i] => errs[j]
Reported == at > Len(prog) => (err <=> limit < Len(Total(prog)))
Complete == at > Len(prog) /\ ~err => accepted = Total(prog)
Ends == <>(at > Len(prog))
=============================================================================
