-------------------------------- MODULE JExt --------------------------------
(* Judge of automatic batching (C19) and of unique (C20).                  *)
EXTENDS Judging, SequencesExt
B == INSTANCE Batch WITH MaxSize <- 0, MaxUnit <- 0, MaxBudget <- 0, size <- 0, unit <- 0, budget <- 0, nb <- 0, next <- 0, done <- 0, warned <- 0
Q == INSTANCE Unique WITH Values <- {}, MaxLen <- 0, MaxSize <- 0, Fill <- 0, x <- 0, size <- 0, i <- 0, len <- 0, out <- 0
R == Records[idx]

(* ---- C19: R.A[j][i] row i of batched input j, flattened; R.u sum of the *)
(* unbatched inputs; output o has R.out[o].rows[i], computed by the        *)
(* function as m * (input src) + sum of c[j] * (sum of row of input j) + u *)
SumSeq(s) == FoldLeft(LAMBDA a, b : a + b, 0, s)
Row(i) == SumSeq([j \in 1..Len(R.A) |-> R.c[j] * SumSeq(R.A[j][i])])
OutOK(o) ==
  /\ Len(o.rows) = R.size
  /\ \A i \in 1..R.size : LET s == R.A[o.src][i] t == Row(i) IN
        Len(o.rows[i]) = Len(s) /\ \A k \in 1..Len(s) : o.rows[i][k] = o.m * s[k] + t + R.u
Total == R.bytes
BatchFails ==
       Need(\A o \in ToSet(R.out) : OutOK(o), "values")
  \cup Need(\A o \in ToSet(R.out) : o.shape = o.shape0 /\ o.dtype = o.dtype0, "shape-or-type")
  \cup Need(R.tree = R.tree0, "structure")
  \cup Need(R.nb = -1 \/ B!Divides(R.nb, R.size), "number-not-a-divisor")
  \cup Need(R.nb = -1 \/ B!Admissible(R.nb, R.size, Total, R.budget), "over-budget")
  \cup Need(R.nb = -1 \/ (R.warned = 1) = B!Over(R.nb, Total, R.budget), "warning")
  \cup (* the batches that were actually executed *)
       Need(R.size = 0 \/ R.ran = <<>> \/
            /\ SumSeq(R.ran) = R.size
            /\ \A b \in ToSet(R.ran) : b = R.ran[1]
            /\ (R.nb = -1 \/ Len(R.ran) = R.nb)
            /\ (B!Admissible(Len(R.ran), R.size, Total, R.budget)), "batches-executed")
(* ---- C20 ---- *)
UniqueFails == Need(\A r \in ToSet(R.rows) : Q!IsUnique(r.out, r.len, r.x, R.size, R.fill), "unique")
          \cup Need(R.dtype = R.dtype0, "unique-type")

Fails ==
  IF R.raised # "" THEN {"raised: " \o R.raised}
  ELSE CASE R.kind = "batch" -> BatchFails [] R.kind = "unique" -> UniqueFails
JVerdict == Report(Fails)
=============================================================================
