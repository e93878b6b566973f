-------------------------------- MODULE Bins --------------------------------
(* Cutpoints of a predictor and binning of its values.                     *)
(*                                                                         *)
(* U is the increasing sequence of the distinct observed values of a       *)
(* predictor, n the number of observations, B the maximum number of bins.  *)
(* Midpoint j (1..Len(U)-1) separates U[j] from U[j+1]; cutpoints are      *)
(* handled doubled, such that midpoints of integers are integers.          *)
EXTENDS Integers, Sequences, FiniteSets

Max0(a) == IF a < 0 THEN 0 ELSE a
Min2(a, b) == IF a < b THEN a ELSE b
Dist(a, b) == IF a < b THEN b - a ELSE a - b

Increasing(u) == \A j \in 1..(Len(u) - 1) : u[j] < u[j + 1]
NonDecreasing(u) == \A j \in 1..(Len(u) - 1) : u[j] <= u[j + 1]

(* room for the cutpoints, midpoints available, cutpoints used *)
Room(n, B) == Max0(Min2(B, n) - 1)
Mids(U) == Max0(Len(U) - 1)
Used(U, n, B) == Min2(Mids(U), Room(n, B))

(* s2 is twice a cutpoint between U[j] and U[j+1]: exactly the midpoint,   *)
(* rounded down to an integer if the values are integers                   *)
IsMid(s2, U, j, isint) ==
  j >= 1 /\ j < Len(U)
  /\ IF isint THEN s2 = U[j] + U[j + 1] - ((U[j + 1] - U[j]) % 2) ELSE s2 = U[j] + U[j + 1]

(* midpoints that may be the k-th cutpoint: the k-th one if all are used,  *)
(* else the nearest to position k of Used + 1 equal parts of the Mids + 1  *)
(* distinct values; at least half a part may be lost to ties (slack: 1/500 *)
(* for the roundoff of the position)                                       *)
Choice(U, n, B, k) ==
  LET M == Mids(U) o == Room(n, B) IN
  IF M <= o THEN {k}
  ELSE LET q == (M + 1) \div (o + 1)          \* k(M+1) = kq(o+1) + kr, within 32 bits
           r == (M + 1) % (o + 1)
           c == k * q + ((k * r) \div (o + 1))
       IN {j \in {c, c + 1} : 2 * Dist((j - k * q) * (o + 1), k * r) <= (o + 1) + ((o + 1) \div 500)}

IsCut(s2, U, n, B, k, isint) == \E j \in Choice(U, n, B, k) : IsMid(s2, U, j, isint)

(* the cutpoints of a predictor *)
QuantileCuts(cuts2, U, n, B, isint) ==
  /\ Len(cuts2) = Used(U, n, B)
  /\ Increasing(cuts2)
  /\ \A k \in 1..Len(cuts2) : IsCut(cuts2[k], U, n, B, k, isint)

(* Bin of a value: the number of cutpoints below it *)
Bin(x2, cuts2) == Cardinality({j \in 1..Len(cuts2) : cuts2[j] < x2})
(* characterization for non decreasing cutpoints *)
IsBin(b, x, cuts) == /\ b >= 0 /\ b <= Len(cuts)
                     /\ (b = 0 \/ cuts[b] < x)
                     /\ (b = Len(cuts) \/ x <= cuts[b + 1])
=============================================================================
