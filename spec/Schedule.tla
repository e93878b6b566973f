------------------------------ MODULE Schedule ------------------------------
(* What a run with B burn-in iterations, S samples and thinning K produces *)
EXTENDS Integers
Total(B, S, K) == B + S * K
BurnRow(j) == j                              \* iteration in row j of the burn-in trace
MainRow(B, K, j) == B + j * K
LogI(j) == j - 1                             \* arguments of the j-th callback
LogSkip(B, K, j) == IF j <= B THEN j - 1 ELSE (j - 1 - B) % K
LogBurnin(B, j) == j <= B
(* progress log with reporting interval r: 1-based iterations reported *)
Reported(r, total) == {i \in 1..total : i % r = 0}
=============================================================================
