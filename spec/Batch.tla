-------------------------------- MODULE Batch --------------------------------
(* Automatic batching: size rows, each contributing unit bytes of batched  *)
(* input and output, are processed in nb equal batches under a budget.     *)
EXTENDS Integers, Sequences, FiniteSets

(* what the number of batches must satisfy *)
Divides(nb, size) == nb >= 1 /\ (size = 0 \/ (nb <= size /\ size % nb = 0))
Within(nb, total, budget) == total <= nb * budget
Admissible(nb, size, total, budget) ==
  Divides(nb, size) /\ (Within(nb, total, budget) \/ nb = size)
Over(nb, total, budget) == ~Within(nb, total, budget)
(* an admissible number always exists: size itself, or 1 if empty *)

(* the rows of batch b *)
RowsOf(b, nb, size) == {r \in 1..size : (r - 1) \div (size \div nb) = b - 1}

CONSTANTS MaxSize, MaxUnit, MaxBudget
VARIABLES size, unit, budget, nb, next, done, warned
vars == <<size, unit, budget, nb, next, done, warned>>

Init == /\ size \in 0..MaxSize /\ unit \in 0..MaxUnit /\ budget \in 1..MaxBudget
        /\ nb \in {k \in 1..(MaxSize + 1) : Admissible(k, size, size * unit, budget) /\ (size = 0 => k = 1)}
        /\ warned = Over(nb, size * unit, budget)
        /\ next = 1 /\ done = [r \in 1..size |-> 0]
Step == /\ next <= nb
        /\ done' = [r \in 1..size |-> IF r \in RowsOf(next, nb, size) THEN done[r] + 1 ELSE done[r]]
        /\ next' = next + 1
        /\ UNCHANGED <<size, unit, budget, nb, warned>>
Spec == Init /\ [][Step]_vars /\ WF_vars(Step)

Finished == next = nb + 1
Once == Finished => \A r \in 1..size : done[r] = 1          \* every row exactly once
NeverTwice == \A r \in 1..size : done[r] <= 1
Batches == \A b \in 1..nb : Cardinality(RowsOf(b, nb, size)) = size \div nb
Budget == \A b \in 1..nb : Cardinality(RowsOf(b, nb, size)) * unit <= budget \/ (warned /\ Cardinality(RowsOf(b, nb, size)) = 1)
Warned == warned => size > 0 /\ unit > budget /\ nb = size
Terminates == <>Finished
(* the model leaves the choice open but never empty *)
Possible == \A s \in 0..MaxSize, u \in 0..MaxUnit, m \in 1..MaxBudget :
              \E k \in 1..(MaxSize + 1) : Admissible(k, s, s * u, m)
ASSUME Possible
=============================================================================
