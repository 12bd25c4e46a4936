------------------------------ MODULE Equality ------------------------------
(***************************************************************************)
(* When values are equal: "yes", "no", or "any" where it is left open      *)
(* (rounding close to the tolerance; cells that hold null in one of two    *)
(* lists and are missing from the other, where one is sparse).             *)
(***************************************************************************)
EXTENDS Numbers

DefaultTol == <<62, 228, 248, 181, 136, 227, 104, 241>>          \* 0.00001

And3(s) == IF \E i \in 1..Len(s) : s[i] = "no" THEN "no"
           ELSE IF \E i \in 1..Len(s) : s[i] = "any" THEN "any" ELSE "yes"

(* the items of a list: <<index word, value>> *)
ItemsOf(v) == IF v[1] = "sparse" THEN v[2] ELSE Keep([i \in 1..Len(v[2]) |-> << W64(i - 1), v[2][i] >>])
Held(s) == SelectSeq(s, LAMBDA x : ~IsNullish(x[2]))

RECURSIVE Eq(_, _, _)
PairsEq(s, t, tol) ==
  IF Len(s) # Len(t) \/ \E i \in 1..Len(s) : s[i][1] # t[i][1] THEN "no"
  ELSE And3(Keep([i \in 1..Len(s) |-> Eq(s[i][2], t[i][2], tol)]))
Eq(a, b, tol) ==
  CASE IsNullish(a) -> IF IsNullish(b) THEN "yes" ELSE "no"
    [] IsNullish(b) -> "no"
    [] IsNum(a) -> IF IsNum(b) THEN NumEq(a, b, tol) ELSE "no"
    [] a[1] \in {"utf8", "raw"} -> IF b[1] \in {"utf8", "raw"} /\ a[2] = b[2] THEN "yes" ELSE "no"
    [] a[1] = "list" /\ b[1] = "list" ->
         IF Len(a[2]) # Len(b[2]) THEN "no" ELSE And3(Keep([i \in 1..Len(a[2]) |-> Eq(a[2][i], b[2][i], tol)]))
    [] a[1] \in {"list", "sparse"} /\ b[1] \in {"list", "sparse"} ->
         LET s == ItemsOf(a)
             t == ItemsOf(b)
             full == PairsEq(s, t, tol)
         IN IF full # "no" \/ (Len(Held(s)) = Len(s) /\ Len(Held(t)) = Len(t)) THEN full
            ELSE IF PairsEq(Held(s), Held(t), tol) = "no" THEN "no" ELSE "any"
    [] a[1] = "map" /\ b[1] = "map" -> PairsEq(a[2], b[2], tol)
    [] OTHER -> IF a = b THEN "yes" ELSE "no"

RECURSIVE HasNaN(_)
HasNaN(v) ==
  CASE v[1] = "double" -> DIsNaN(v[2])
    [] v[1] = "list" -> \E i \in 1..Len(v[2]) : HasNaN(v[2][i])
    [] v[1] \in {"sparse", "map"} -> \E i \in 1..Len(v[2]) : HasNaN(v[2][i][2])
    [] OTHER -> FALSE
=============================================================================
