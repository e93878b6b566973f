------------------------------ MODULE Interface ------------------------------
(* The fitted model object: it is created by a fit and then queried in any *)
(* order. The answer to a query depends on the fit and the query alone,    *)
(* and no query changes the fit.                                           *)
EXTENDS Integers, Sequences, FiniteSets

CONSTANTS Points,        \* data sets that can be queried, the training one included
          Train,
          Bad,           \* queries that must be rejected
          MaxQueries
VARIABLES fit, cache, hist
vars == <<fit, cache, hist>>

Queries == {<<"predict", p>> : p \in Points} \cup {<<"reject", b>> : b \in Bad} \cup {<<"train", Train>>, <<"mean", Train>>}
NoAnswer == <<"none">>
Answer(f, q) == IF q[1] = "reject" THEN <<"error">>
                ELSE IF q[1] = "mean" THEN <<"mean", f, q[2]>>
                ELSE <<"values", f, q[2]>>           \* predictions at the training points are yhat_train

Init == fit \in {1, 2} /\ cache = NoAnswer /\ hist = <<>>
Query(q) ==
  /\ Len(hist) < MaxQueries
  /\ hist' = Append(hist, <<q, IF q[1] = "train" /\ cache # NoAnswer THEN cache ELSE Answer(fit, q)>>)
  /\ cache' = IF q[1] \in {"train", "mean"} THEN Answer(fit, <<"train", Train>>) ELSE cache
  /\ UNCHANGED fit
Next == \E q \in Queries : Query(q)
Spec == Init /\ [][Next]_vars

FitUntouched == [][fit' = fit]_vars
Pure == \A j \in 1..Len(hist) : hist[j][2] = Answer(fit, hist[j][1])
Consistent == \A i, j \in 1..Len(hist) : (hist[i][1] = <<"train", Train>> /\ hist[j][1] = <<"predict", Train>>) => hist[i][2] = hist[j][2]
=============================================================================
