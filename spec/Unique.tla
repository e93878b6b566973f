------------------------------- MODULE Unique -------------------------------
(* Sorted distinct values in a fixed amount of space, by one scan of the   *)
(* sorted input.                                                           *)
EXTENDS Integers, Sequences, FiniteSets

(* the definition *)
Distinct(x) == {x[i] : i \in 1..Len(x)}
UMin(a, b) == IF a < b THEN a ELSE b
IsUnique(out, len, x, size, fill) ==
  LET D == Distinct(x) IN
  /\ Len(out) = size
  /\ len = UMin(Cardinality(D), size)
  /\ \A i \in 1..len : out[i] \in D
  /\ \A i \in 1..(len - 1) : out[i] < out[i + 1]
  /\ (len > 0 => Cardinality({v \in D : v <= out[len]}) = len)        \* the smallest ones
  /\ \A i \in (len + 1)..size : out[i] = fill

(* the scan *)
CONSTANTS Values, MaxLen, MaxSize, Fill
VARIABLES x, size, i, len, out
vars == <<x, size, i, len, out>>
Sorted(s) == \A k \in 1..(Len(s) - 1) : s[k] <= s[k + 1]
Init == /\ \E n \in 0..MaxLen : x \in {s \in [1..n -> Values] : Sorted(s)}
        /\ size \in 0..MaxSize /\ i = 1 /\ len = 0 /\ out = [k \in 1..size |-> Fill]
Scan == /\ i <= Len(x) /\ i' = i + 1 /\ UNCHANGED <<x, size>>
        /\ IF len < size /\ (i = 1 \/ x[i] # x[i - 1])
           THEN len' = len + 1 /\ out' = [out EXCEPT ![len + 1] = x[i]]
           ELSE UNCHANGED <<len, out>>
Spec == Init /\ [][Scan]_vars
(* after each step the output is right for the values seen *)
Partial == IsUnique(out, len, SubSeq(x, 1, i - 1), size, Fill)
=============================================================================
