------------------------------ MODULE JKernel ------------------------------
(* Judge of the transition kernel of the real step function (C06, C07).    *)
EXTENDS Judging, Kernel

Ctxs == ndJsonDeserialize(IOEnv.CTXS)
R == Records[idx]
K == Ctxs[R.c].K

Norm(v, s) == [i \in DOMAIN v |-> IF s[i] = 0 THEN 0 ELSE v[i]]
Same(a, v, s) == a[2] = s /\ Norm(a[1], a[2]) = v

(* ---- kind "state": all outcomes of one step from one state ---- *)
StateV == R.V
StateS == R.S
Excl == LET ix == IndexOf(K, StateV, StateS)
        IN [q \in 1..NPts(K) |-> R.r[q] + (IF "mult" \in DOMAIN K THEN K.mult[q] ELSE 1) * R.leaf[ix[q]]]

StateFails ==
  LET V == StateV  S == StateS  k == R.k
      M == Moves(K, V, S)
      ex == Excl
      fac == [mv \in M |-> Factors(K, V, S, ex, mv)]
      qq == [mv \in M |-> LET q == ProposeProb(K, V, S, mv) IN DivMicro(q[1], q[2])]
      prob == [mv \in M |-> IF ~fac[mv].ok THEN 0
                            ELSE MulMicro(qq[mv], AccProb(LogRatio(fac[mv], mv)))]
      outs == 1..Len(R.out)
      stay(o) == R.out[o].S = S /\ R.out[o].V = V
      moved == {o \in outs : ~stay(o)}
      mvOf(o) == {mv \in M : Same(After(V, S, mv), R.out[o].V, R.out[o].S)}
      cntOf(mv) == LET A == {o \in moved : mv \in mvOf(o)} IN SumOn([o \in A |-> R.out[o].c], A)
      counts == [mv \in M |-> cntOf(mv)]
      nstay == LET A == outs \ moved IN SumOn([o \in A |-> R.out[o].c], A)
      pstay == Micro - SumOn(prob, M)
      Mf == {mv \in M : Expected(k, prob[mv]) >= 20}
      chi == LET term(c, P) == LET e == Expected(k, P) dd == AbsI(c - e)
                               IN IF dd > 20000 THEN 1000000 ELSE (dd * dd * 5) \div e
             IN SumOn([mv \in Mf |-> term(counts[mv], prob[mv])], Mf)
                + (IF Expected(k, pstay) >= 20 THEN term(nstay, pstay) ELSE 0)
      nf == Cardinality(Mf) + 1
      ngrow == LET A == outs IN SumOn([o \in A |-> IF R.out[o].cnt[1] = 1 THEN R.out[o].c ELSE 0], A)
      nprune == LET A == outs IN SumOn([o \in A |-> IF R.out[o].cnt[3] = 1 THEN R.out[o].c ELSE 0], A)
      anyg == GrowableK(K, V, S) # {}
      anyp == Dec(S) # {}
      pg == IF anyg /\ anyp THEN Micro \div 2 ELSE IF anyg THEN Micro ELSE 0
      pp == IF anyg /\ anyp THEN Micro \div 2 ELSE IF anyp THEN Micro ELSE 0
      \* tolerance for float32 in the saved ratios
      big == LET am == {AbsI(fac[mv].ll) : mv \in M} IN IF am = {} THEN 0 ELSE CHOOSE x \in am : \A z \in am : z <= x
      tl == 60 + big \div 20000
      match(mv, rr) == Near(rr[1], fac[mv].ltp, 40) /\ Near(rr[2], fac[mv].ll, tl)
      void == VoidPossible(K, V, S)
      accM == {mv \in M : fac[mv].ok}
  IN CASE Prop = "C07" ->
            Need(\A o \in moved : mvOf(o) # {}, "inadmissible-move")
       \cup Need(\A mv \in M : (Expected(k, prob[mv]) >= 40) => counts[mv] > 0, "unreachable-move")
       \cup Need(FreqOK(ngrow, k, pg, 0), "grow-probability")
       \cup Need(FreqOK(nprune, k, pp, 0), "prune-probability")
       \cup Need(\A mv \in M : FreqOK(counts[mv], k, prob[mv], 30), "move-frequency")
       \cup Need(chi \div 5 <= nf + 2 * ISqrt(20 * nf) + 42, "chi-square")
       [] Prop = "C06" ->
            Need(FreqOK(nstay, k, pstay, 100), "rejection-frequency")
       \cup Need(\A mv \in M : FreqOK(counts[mv], k, prob[mv], 30), "acceptance-frequency")
       \cup Need(chi \div 5 <= nf + 2 * ISqrt(20 * nf) + 42, "chi-square")
       \cup Need(\A o \in moved : \A mv \in mvOf(o) :
                   \A r \in 1..Len(R.out[o].rat) : match(mv, R.out[o].rat[r]), "ratio-of-accepted-move")
       \cup Need(void \/ M = {} \/ \A o \in outs \ moved : \A r \in 1..Len(R.out[o].rat) :
                   \E mv \in M : match(mv, R.out[o].rat[r]), "ratio-of-rejected-move")
       \cup Need(\A o \in moved : \A mv \in mvOf(o) : fac[mv].ok, "accepted-too-few-points")

(* ---- kind "graph": the trees reached are exactly the admissible ones ---- *)
RECURSIVE Closure(_, _)
Step1(T) == LET V == T[1] S == T[2] IN
  {LET a == After(V, S, mv) IN <<Norm(a[1], a[2]), a[2]>> :
     mv \in {mv \in Moves(K, V, S) :
               ~K.req \/ LET big == IF mv.t = "grow" THEN After(V, S, mv) ELSE <<V, S>>
                             ix == IndexOf(K, big[1], big[2])
                         IN CountAt(K, ix, 2 * mv.i) >= K.minp /\ CountAt(K, ix, 2 * mv.i + 1) >= K.minp}}
Closure(A, F) == IF F = {} THEN A
                 ELSE LET B == UNION {Step1(T) : T \in F} \ A IN Closure(A \cup B, B)
All == LET r == <<Empty(K.d), Empty(K.d)>> IN Closure({r}, {r})
GraphFails == LET got == {<<R.trees[j].V, R.trees[j].S>> : j \in 1..Len(R.trees)}
  IN Need(got \subseteq All, "inadmissible-tree") \cup Need(All \subseteq got, "unreachable-tree")

(* ---- kind "marg" ---- *)
CntIn(list, x) == LET A == {j \in 1..Len(list) : list[j][1] = x}
                  IN IF A = {} THEN 0 ELSE list[CHOOSE j \in A : TRUE][2]
(* c out of n when each of r values is equally likely *)
UniOK(c, n, r) == r = 0 \/ AbsI(c - n \div r) <= 6 * (ISqrt(n \div r) + 1) + 6
UniChi(list, A, n) ==
  A = {} \/ LET r == Cardinality(A) e == n \div r IN
  e < 5 \/
  LET t == SumOn([x \in A |-> LET dd == AbsI(CntIn(list, x) - e)
                               IN IF dd > 20000 THEN 1000000 ELSE (dd * dd) \div e], A)
  IN t <= r + 2 * ISqrt(20 * r) + 45 + r \div e
MargFails ==
  LET V == R.V S == R.S
      G == GrowableK(K, V, S)
      us(i) == Usable(V, S, K.ms, i)
      ltp(i) == LET v == CHOOSE x \in us(i) : TRUE
                    c == CHOOSE x \in Cuts(V, S, K.ms, i, v) : TRUE
                    a == Grow(V, S, i, v, c)
                IN LogTransPrior(K, V, S, i, a[1], a[2])
      den == PGrowDen(K, V, S)
      pnode(i) == IF us(i) = {} THEN 0 ELSE
        MulMicro(MulMicro(DivMicro(WNode(K, i), WSum(K, V, S) * den), AccProb(ltp(i))),
                 DivMicro(Cardinality(us(i)), Cardinality(Drawable(V, S, K.ms, i))))
      P == Prunable(S)
      pprune(i) == MulMicro(DivMicro(1, PPruneDen(K, V, S) * Cardinality(P)),
                            AccProb(-LogTransPrior(K, V, PruneS(S, i), i, V, S)))
  IN   Need(R.bad = 0, "more-than-one-change")
  \cup Need(\A j \in 1..Len(R.nodes) : R.nodes[j][1] \in G, "inadmissible-leaf")
  \cup Need(\A j \in 1..Len(R.prunes) : R.prunes[j][1] \in P, "inadmissible-prune")
  \cup Need(\A i \in G : FreqOK(CntIn(R.nodes, i), R.k, pnode(i), 40), "leaf-frequency")
  \cup Need(\A i \in P : FreqOK(CntIn(R.prunes, i), R.k, pprune(i), 40), "prune-frequency")
  \cup Need(\A j \in 1..Len(R.vars) : LET e == R.vars[j] u == us(e.i) IN
              \A q \in 1..Len(e.v) : e.v[q][1] \in u, "inadmissible-predictor")
  \cup Need(\A j \in 1..Len(R.vars) : LET e == R.vars[j] u == us(e.i) r == Cardinality(u) IN
              /\ \A x \in u : UniOK(CntIn(e.v, x), e.n, r)
              /\ UniChi(e.v, u, e.n), "predictor-frequency")
  \cup Need(\A j \in 1..Len(R.cuts) : LET e == R.cuts[j] C == Cuts(V, S, K.ms, e.i, e.v) IN
              \A q \in 1..Len(e.c) : e.c[q][1] \in C, "inadmissible-cutpoint")
  \cup Need(\A j \in 1..Len(R.cuts) : LET e == R.cuts[j] C == Cuts(V, S, K.ms, e.i, e.v) r == Cardinality(C) IN
              /\ \A x \in C : UniOK(CntIn(e.c, x), e.n, r)
              /\ UniChi(e.c, C, e.n), "cutpoint-frequency")

(* ---- kind "seq": several trees one after the other ---- *)
Abs20(x) == IF x < 0 THEN -x ELSE x
(* quadratic term with sums in 1/1024: result in millionths *)
Quad20(b, x, a, n) ==    \* b^2 x^2 / (2 a n), x in 1024ths -> millionths
  LET y == Abs20(x) IN
  LET z == (y * 1000) \div 1024           \* x in thousandths
      sq == (b * b * z * 1000) \div (2 * a * n) \* millionths
  IN IF z > 40000 THEN 0
     ELSE ((sq \div 1000) * z) + (((sq % 1000) * z) \div 1000)
SeqLL(Rs, ix2, i) ==
  LET a == K.s2a b == K.s2b m == K.m
      nl == CountAt(K, ix2, 2 * i) nr == CountAt(K, ix2, 2 * i + 1)
      l == SumAt(Rs, ix2, 2 * i) r == SumAt(Rs, ix2, 2 * i + 1)
      al == a * m + nl * b ar == a * m + nr * b at == a * m + (nl + nr) * b
  IN (Ln(a * m) + Ln(at) - Ln(al) - Ln(ar)) \div 2
     + Quad20(b, l, a, al) + Quad20(b, r, a, ar) - Quad20(b, l + r, a, at)
RECURSIVE ResAt(_, _)
(* residuals (1024ths) before tree t is updated *)
ResAt(t, q) == IF t = 1 THEN 1024 * R.r[q]
               ELSE ResAt(t - 1, q) + 1024 * R.leaf0[t - 1]
                    - R.leaf[t - 1][Traverse(R.V[t - 1], R.S[t - 1], K.X[q])]
SeqFails ==
  LET E == Empty(K.d)
      M == GrowMoves(K, E, E)
      rs(t) == [q \in 1..NPts(K) |-> ResAt(t, q) + 1024 * R.leaf0[t]]
      mvs(t) == {mv \in M : Same(After(E, E, mv), R.V[t], R.S[t])}
      llof(t, mv) == LET a == After(E, E, mv) IN SeqLL(rs(t), IndexOf(K, a[1], a[2]), 1)
      ltpof(mv) == LET a == After(E, E, mv) IN LogTransPrior(K, E, E, 1, a[1], a[2])
      tol(v) == 20000 + AbsI(v) \div 100
      ok(t, mv) == LET v == llof(t, mv) IN Near(R.ll[t], v, tol(v)) /\ Near(R.ltp[t], ltpof(mv), 60)
  IN   Need(\A t \in 1..K.m : Dec(R.S[t]) # {} => \E mv \in mvs(t) : ok(t, mv), "sequential-ratio-accepted")
  \cup Need(\A t \in 1..K.m : Dec(R.S[t]) = {} => \E mv \in M : ok(t, mv), "sequential-ratio-rejected")
AggFails ==
  LET n == Len(R.acc)
      ex == FoldLeftDomain(LAMBDA z, j : z + AccProb(R.lr[j]) \div 100, 0, R.lr) \div 10000
      va == FoldLeftDomain(LAMBDA z, j : LET p == AccProb(R.lr[j]) \div 1000
                                         IN z + (p * (1000 - p)) \div 1000, 0, R.lr) \div 1000
      cc == SumSeq(R.acc)
  IN Need(AbsI(cc - ex) <= 6 * (ISqrt(va) + 1) + 4 + n \div 5000, "acceptance-given-ratio")

(* ---- kind "prior": stationary distribution without data ---- *)
PriorFails ==
  LET A == All
      lp == [T \in A |-> LnPrior(K, T[1], T[2])]
      top == CHOOSE x \in {lp[T] : T \in A} : \A T \in A : lp[T] <= x
      wt == [T \in A |-> ExpNeg(top - lp[T])]          \* millionths of the largest
      z == SumOn([T \in A |-> wt[T] \div 100], A)
      pr(T) == DivMicro(wt[T], z * 100)
      cn(T) == LET B == {j \in 1..Len(R.out) : R.out[j].V = T[1] /\ R.out[j].S = T[2]}
               IN IF B = {} THEN 0 ELSE R.out[CHOOSE j \in B : TRUE].c
  IN   Need(\A j \in 1..Len(R.out) : <<R.out[j].V, R.out[j].S>> \in A, "inadmissible-tree")
  \cup Need(\A T \in A : FreqOK(cn(T), R.k, pr(T), 5 + Cardinality(A)), "stationary-distribution")

Fails ==
  IF R.raised # "" THEN {"raised: " \o R.raised}
  ELSE CASE R.kind = "state" -> StateFails
         [] R.kind = "graph" -> GraphFails
         [] R.kind = "marg"  -> MargFails
         [] R.kind = "seq"   -> SeqFails
         [] R.kind = "agg"   -> AggFails
         [] R.kind = "prior" -> PriorFails
JVerdict == Report(Fails)
=============================================================================
