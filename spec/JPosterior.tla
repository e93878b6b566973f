---------------------------- MODULE JPosterior ----------------------------
(* Judge of ensembles of chains started from the joint distribution (C28). *)
EXTENDS Judging, Posterior
Ctxs == ndJsonDeserialize(IOEnv.CTXS)
R == Records[idx]
K == Ctxs[R.c].K

NPt == Len(K.X)
Half6 == 500000
P1 == 158655
(* n trials, any n: c compatible with probability P *)
AnyOK(c, n, P, E) == IF n >= 1000 THEN FreqOK(c, n \div 1000, P, E + 1000000 \div (n \div 1000))
                   ELSE AbsI(c - (n * (P \div 1000)) \div 1000) <= 3 * (ISqrt(n) + 1) + 6

GHi == GammaTail(K.alpha, K.alpha)
JointFails ==
  LET A == TLCEval(AllTrees(K))
      P == TLCEval(PriorTable(K, A))
      k == R.k
      key(o) == <<o.V, o.S>>
      known(t) == \A j \in 1..Len(R.trees[t]) : key(R.trees[t][j]) \in A
      F(t) == TLCEval([T \in A |-> LET B == {j \in 1..Len(R.trees[t]) : key(R.trees[t][j]) = T}
                           IN IF B = {} THEN [c |-> 0, hi |-> 0, fp |-> 0] ELSE R.trees[t][CHOOSE j \in B : TRUE]])
      chi(t) == LET f == F(t)
                    big == {T \in A : Expected(k, P[T]) >= 20}
                    term(c, e) == LET dd == AbsI(c - e) IN IF dd > 14000 THEN 1000000 ELSE (dd * dd * 10) \div e
                    n == Cardinality(big)
                IN n < 2 \/ SumOn([T \in big |-> term(f[T].c, Expected(k, P[T]))], big) <= 10 * n + 60 * ISqrt(2 * n) + 350 + n
      leafok(j) == LET l == R.leaves[j] IN \A b \in 1..5 : AnyOK(l.below[b], l.n, PhiTab[b], 600)
      indep(j) == LET l == R.leaves[j] IN AnyOK(l.pos, l.nh, Half6, 600)
  IN   Need(\A t \in 1..K.m : known(t), "tree-outside-support")
  \cup Need(\A t \in 1..K.m : LET f == F(t) IN \A T \in A : FreqOK(f[T].c, k, P[T], 300), "tree-distribution")
  \cup Need(\A t \in 1..K.m : chi(t), "tree-distribution-overall")
  \cup Need(\A t \in 1..K.m : LET f == F(t) IN \A T \in A : FreqOK(f[T].hi, k, MulMicro(P[T], GHi), 300), "tree-and-variance-dependent")
  \cup Need(NPt = 0 \/ \A t \in 1..K.m : LET f == F(t) IN \A T \in A : FreqOK(f[T].fp, k, P[T] \div 2, 300), "tree-and-value-dependent")
  \cup Need(\A j \in 1..Len(R.leaves) : leafok(j), "leaf-distribution")
  \cup Need(\A j \in 1..Len(R.leaves) : indep(j), "leaf-and-variance-dependent")
  \cup Need(\A t \in 1..K.m : AnyOK(R.same[t][2], R.same[t][1], Half6, 600), "leaves-of-a-tree-dependent")
  \cup Need(\A j \in 1..Len(R.pairs) : FreqOK(R.pairs[j], k, Half6, 300), "trees-dependent")
  \cup Need(\A x \in 1..Len(R.tail) : FreqOK(R.tail[x], k, GammaTail(K.alpha, x), 300), "variance-distribution")
  \cup Need(\A q \in 1..NPt : \A b \in 1..5 : FreqOK(R.points[q].below[b], k, PhiTab[b], 300), "error-distribution")
  \cup Need(\A q \in 1..NPt : FreqOK(R.points[q].same, k, Half6, 300), "error-and-value-dependent")
  \cup Need(NPt < 2 \/ \A q \in 1..NPt : FreqOK(R.points[q].nxt, k, Half6, 300), "errors-dependent")
  \cup Need(\A q \in 1..NPt : FreqOK(R.points[q].hi, k, MulMicro(P1, GHi), 300), "error-and-variance-dependent")
Fails == IF R.raised # "" THEN {"raised: " \o R.raised} ELSE JointFails
JVerdict == Report(Fails)
=============================================================================
