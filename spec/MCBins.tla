------------------------------- MODULE MCBins -------------------------------
(* Observations of a predictor arrive one at a time; what the definitions  *)
(* of Bins imply for the user of the cutpoints, for every history.         *)
EXTENDS Bins, SequencesExt
CONSTANTS Values, MaxObs, MaxBins, IsInt
VARIABLES obs, B, cuts
vars == <<obs, B, cuts>>

U(o) == SetToSortSeq(ToSet(o), LAMBDA a, b : a < b)

(* the cutpoints of the code: ties of the nearest midpoint are resolved in *)
(* any way that keeps them increasing                                      *)
Cuts(o, b) == LET u == U(o) m == Used(u, Len(o), b)
                  Mid(j) == IF IsInt THEN u[j] + u[j + 1] - ((u[j + 1] - u[j]) % 2) ELSE u[j] + u[j + 1]
              IN {[k \in 1..m |-> Mid(f[k])] : f \in {f \in [1..m -> 1..(Len(u) - 1)] :
                     Increasing(f) /\ \A k \in 1..m : f[k] \in Choice(u, Len(o), b, k)}}

Init == obs = <<>> /\ B \in 1..MaxBins /\ cuts = <<>>
Observe == /\ Len(obs) < MaxObs
           /\ \E v \in Values : obs' = Append(obs, v)
           /\ cuts' \in Cuts(obs', B)
           /\ UNCHANGED B
Spec == Init /\ [][Observe]_vars

X2(v) == 2 * v
Distinct == Cardinality(ToSet(obs))
Exists == Cuts(obs, B) # {}
Agree == QuantileCuts(cuts, U(obs), Len(obs), B, IsInt)
Separate == Distinct <= B => \A v, w \in ToSet(obs) : v # w => Bin(X2(v), cuts) # Bin(X2(w), cuts)
Exact == Distinct > B => Len(cuts) = B - 1
Constant == Distinct <= 1 => cuts = <<>>
(* no bin is empty and their contents differ by at most one distinct value *)
Content(b) == Cardinality({v \in ToSet(obs) : Bin(X2(v), cuts) = b})
Even == obs # <<>> => \A b, c \in 0..Len(cuts) : Content(b) >= 1 /\ Dist(Content(b), Content(c)) <= (IF Distinct <= B THEN 0 ELSE 2)
Monotone == \A v, w \in Values : v <= w => Bin(X2(v), cuts) <= Bin(X2(w), cuts)
Bounded == \A v \in Values : Bin(X2(v), cuts) \in 0..Len(cuts)
Right == \A v \in Values : \A c \in 1..Len(cuts) : (Bin(X2(v), cuts) >= c) <=> (X2(v) > cuts[c])
Unique == \A v \in Values : {b \in 0..(Len(cuts) + 1) : IsBin(b, X2(v), cuts)} = {Bin(X2(v), cuts)}
(* only new values move the cutpoints; with ties resolved as functions     *)
(* of the set of the distinct values                                       *)
Repeat == [][obs'[Len(obs')] \in ToSet(obs) => Cuts(obs', B) = Cuts(obs, B)]_vars
=============================================================================
