------------------------------- MODULE JLoop -------------------------------
(* Judge of recorded runs (C10, C11, C25).  A state is a record with s: the *)
(* integer arrays in one sequence, f: the real ones in fixed point, s2: the *)
(* noise variance, c: the four counts, and the parts saved in traces.       *)
EXTENDS Judging, Schedule, SequencesExt
R == Records[idx]

NearSeq(a, b, tol) == Len(a) = Len(b) /\ \A j \in 1..Len(a) : a[j] = b[j] \/ Near(a[j], b[j], tol)
T == Total(R.B, R.S, R.K)

BurnEq(row, st, tol) == row.c = st.c /\ NearSeq(row.s2, st.s2, tol) /\ NearSeq(row.rat, st.rat, tol)
MainEq(row, st, tol) == BurnEq(row, st, tol) /\ row.tree = st.tree /\ NearSeq(row.leaf, st.leaf, tol)
FullEq(a, b, tol) == MainEq(a, b, tol) /\ a.li = b.li /\ NearSeq(a.r, b.r, tol)

BurnFields == {"sigma2", "grow_prop_count", "grow_acc_count", "prune_prop_count", "prune_acc_count"}
              \cup (IF R.ratios = 1 THEN {"ratios"} ELSE {})
MainFields == BurnFields \cup {"leaf_trees", "var_trees", "split_trees"}

RunFails ==
       Need(Len(R.cb) = T /\ Len(R.st) = T, "number-of-iterations")
  \cup Need(\A j \in 1..Len(R.cb) : LET c == R.cb[j] IN c.i = LogI(j), "callback-iteration-index")
  \cup Need(\A j \in 1..Len(R.cb) : LET c == R.cb[j] IN c.skip = LogSkip(R.B, R.K, j), "callback-skip-index")
  \cup Need(\A j \in 1..Len(R.cb) : LET c == R.cb[j] IN c.burnin = (IF LogBurnin(R.B, j) THEN 1 ELSE 0), "callback-burnin-flag")
  \cup Need(\A j \in 1..Len(R.cb) : LET c == R.cb[j] IN c.nb = R.B /\ c.ns = R.S /\ c.nk = R.K, "callback-schedule")
  \cup Need(ToSet(R.keysB) = BurnFields, "burnin-trace-fields")
  \cup Need(ToSet(R.keysM) = MainFields, "main-trace-fields")
  \cup Need(R.rowsB = R.B, "burnin-trace-length")
  \cup Need(R.rowsM = R.S, "main-trace-length")
  \cup (IF Len(R.st) # T THEN {} ELSE
        Need(\A j \in 1..Len(R.burn) : BurnEq(R.burn[j], R.st[BurnRow(j)], 2), "burnin-trace-rows")
   \cup Need(\A j \in 1..Len(R.main) : MainEq(R.main[j], R.st[MainRow(R.B, R.K, j)], 2), "main-trace-rows")
   \cup Need(FullEq(R.final, IF T = 0 THEN R.init ELSE R.st[T], 2), "final-state")
   \cup Need(T = 0 \/ ~FullEq(R.st[1], R.init, 2), "iteration-did-nothing")
   \cup Need(\A j \in 2..T : ~FullEq(R.st[j - 1], R.st[j], 2), "iteration-did-nothing"))

(* the same iteration of the same chain run in two ways *)
SameFails ==
  LET n == IF Len(R.a) < Len(R.b) THEN Len(R.a) ELSE Len(R.b)
  IN Need(n > 0 /\ \A j \in 1..n : FullEq(R.a[j], R.b[j], R.tol), R.why)
VecFails == Need(Len(R.a) = Len(R.b) /\ \A j \in 1..Len(R.a) : NearSeq(R.a[j], R.b[j], R.tol), R.why)
DiffFails == Need(\E j \in 1..Len(R.a) : ~NearSeq(R.a[j], R.b[j], R.tol), R.why)

(* progress log: lines <<number, total, grow, prune, accgrow, accprune, burnin>>
   with the rates in hundredths, -1 for not a number; counts of all iterations *)
Rate(num, den, x) == IF den = 0 THEN x = -1
                     ELSE LET dd == 200 * num - 2 * den * x
                          IN (IF dd < 0 THEN -dd ELSE dd) <= den
Expect == SetToSortSeq(Reported(R.r, T), LAMBDA a, b : a < b)
LogFails ==
       Need(R.unparsed = 0, "line-format")
  \cup Need([j \in 1..Len(R.lines) |-> R.lines[j][1]] = Expect, "reported-iterations")
  \cup Need(\A j \in 1..Len(R.lines) : R.lines[j][2] = T, "reported-total")
  \cup Need(\A j \in 1..Len(R.lines) : LET l == R.lines[j] IN l[7] = (IF l[1] <= R.B THEN 1 ELSE 0), "burnin-mark")
  \cup Need(\A j \in 1..Len(R.lines) : LET l == R.lines[j] IN
              l[1] \in 1..Len(R.cnt) => LET c == R.cnt[l[1]] IN Rate(c[1], R.m, l[3]) /\ Rate(c[3], R.m, l[4]), "proposal-rates")
  \cup Need(\A j \in 1..Len(R.lines) : LET l == R.lines[j] IN
              l[1] \in 1..Len(R.cnt) => LET c == R.cnt[l[1]] IN Rate(c[2], c[1], l[5]) /\ Rate(c[4], c[3], l[6]), "acceptance-rates")

Fails ==
  IF R.raised # "" THEN {"raised: " \o R.raised}
  ELSE CASE R.kind = "run" -> RunFails [] R.kind = "same" -> SameFails
         [] R.kind = "vec" -> VecFails [] R.kind = "diff" -> DiffFails [] R.kind = "log" -> LogFails
JVerdict == Report(Fails)
=============================================================================
