------------------------------- MODULE JDiag -------------------------------
(* Judge of the diagnostics (C23).                                         *)
EXTENDS Judging, Diagnostics, Numeric
R == Records[idx]

CheckFails ==
       Need(\A t \in 1..Len(R.trees) : ToSet(R.trees[t].names) = Defects(R.trees[t]), "defects")
  \cup Need(\A t \in 1..Len(R.trees) : (R.trees[t].error = 0) <=> (Defects(R.trees[t]) = {}), "error-code")

DepthFails ==
  LET S == R.S
      L == Len(R.depth)
      C == TLCEval([t \in 1..Len(S) |-> ActualDepth(Tail(S[t]))])
  IN   Need(L = R.d, "depth-length")
  \cup Need(\A k \in 1..L : R.depth[k] = Occurrences(C, k - 1), "depth-count")
PointFails ==
  LET r == R
      n == Len(r.X)
      \* numbers of points of the leaves of all trees
      C == TLCEval(FoldLeftDomain(LAMBDA z, t : z \o
             (LET V == TLCEval(Tail(r.V[t])) S == TLCEval(Tail(r.S[t]))
                  e == TLCEval([j \in 1..n |-> Traverse(V, S, r.X[j])])
                  l == SetToSeq(Leaves(S))
              IN TLCEval([q \in 1..Len(l) |-> Cardinality({j \in 1..n : e[j] = l[q]})])), <<>>, r.S))
  IN   Need(Len(r.points) = n + 1, "points-length")
  \cup Need(\A k \in 1..Len(r.points) : r.points[k] = Occurrences(C, k - 1), "points-count")

(* summaries of the counts: sums of <<grow prop, grow acc, prune prop, prune acc>> *)
Ratio(num, den, x) == IF den = 0 THEN x = NF ELSE LET e == DivMicro(num, den) IN Near(x, e, 3)
Sums == [k \in 1..4 |-> FoldLeft(LAMBDA z, c : z + c[k], 0, R.cnt)]
MoveOK(a, b, tot, x) == IF a = 0 \/ tot = 0 THEN x = NF ELSE Near(x, DivMicro(b, tot), 3)
SumFails ==
  LET s == Sums tot == s[1] + s[3] IN
       Need(R.acc = <<>> \/ (Ratio(s[2], s[1], R.acc[1]) /\ Ratio(s[4], s[3], R.acc[2])), "acceptance-summary")
  \cup Need(R.prop = <<>> \/ (Ratio(s[1], tot, R.prop[1]) /\ Ratio(s[3], tot, R.prop[2])), "proposal-summary")
  \cup Need(R.move = <<>> \/ (MoveOK(s[1], s[2], tot, R.move[1]) /\ MoveOK(s[3], s[4], tot, R.move[2])), "move-summary")
(* flags of the first sample of a stretch of bad ones *)
BadFails ==
       Need(\A j \in 1..Len(R.bad) : \A t \in 1..Len(R.bad[j]) : R.bad[j][t] = R.want[j][t], "bad-trees")
  \cup Need(\A j \in 1..Len(R.goes) : \A t \in 1..Len(R.goes[j]) :
              R.goes[j][t] = (IF R.want[j][t] = 1 /\ (j = 1 \/ R.want[j - 1][t] = 0) THEN 1 ELSE 0), "goes-bad")

(* lines of the printout: <<node, category, predictor, cutpoint, value>>, category 1 leaf, 2 decision, 3 unused *)
T == Tail(R.S1)
W == Tail(R.V1)
Line(n) == CHOOSE l \in ToSet(R.lines) : l[1] = n
Near2(x, v) == LET a == Abs(v) IN Near(x, v, 1 + a \div 19)      \* two digits
PrintFails ==
  LET reach == TLCEval(Reachable(T)) all == 1..(2 * Len(T) + 1) IN
       Need(R.unparsed = 0, "print-format")
  \cup Need({l[1] : l \in ToSet(R.lines)} = (IF R.all = 1 THEN all ELSE reach) /\ Len(R.lines) = Cardinality({l[1] : l \in ToSet(R.lines)}), "print-nodes-once")
  \cup Need(\A l \in ToSet(R.lines) : l[1] \in all =>
              l[2] = (IF l[1] \notin reach THEN 3 ELSE IF At(T, l[1]) = 0 THEN 1 ELSE 2), "print-category")
  \cup Need(\A l \in ToSet(R.lines) : (l[1] \in all /\ l[2] = 2) => (l[3] = W[l[1]] /\ l[4] = T[l[1]]), "print-rule")
  \cup Need(\A l \in ToSet(R.lines) : (l[1] \in all /\ l[2] = 1) => Near2(l[5], R.L1[l[1] + 1]), "print-value")

ResidFails == Need(Len(R.a) = Len(R.b) /\ \A j \in 1..Len(R.a) : Near(R.a[j], R.b[j], R.tol), R.why)
Fails ==
  IF R.raised # "" THEN {"raised: " \o R.raised}
  ELSE CASE R.kind = "check" -> CheckFails [] R.kind = "depth" -> DepthFails [] R.kind = "points" -> PointFails
         [] R.kind = "sums" -> SumFails [] R.kind = "bad" -> BadFails [] R.kind = "print" -> PrintFails [] R.kind = "near" -> ResidFails
JVerdict == Report(Fails)
=============================================================================
