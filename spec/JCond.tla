------------------------------- MODULE JCond -------------------------------
(* Judge of leaf and noise variance draws (C08, C09).                      *)
EXTENDS Judging, Conditional
R == Records[idx]
NT == Len(R.leaf0)
Tr == 1..NT
NP == Len(R.X)
Pts == 1..NP

(* ---- kind "draws": samples of one step from one state ----
   residuals r: integers; leaf values before: integers; leaf values
   after: in 1/16384, residual after in 1/256; u = standardised innovation in 1/256 *)
Old(t) == [q \in Pts |-> 16384 * R.leaf0[t][R.li0[t][q]]]
(* integer square root of the precision, in 1/256 of standard deviations *)
Root(n) == LET p == PrecNum(R.a, R.b, NT, n) IN ISqrt((p * 65536) \div R.a)   \* 1/256
Innov(leaf, n, s) ==   \* leaf and s in 1/16384 -> 1/256
  LET p == PrecNum(R.a, R.b, NT, n)
      e == leaf - (R.b * s) \div p
  IN IF AbsI(e) > 300000 THEN 1000000
     ELSE LET z == (e * Root(n)) \div 16384 IN IF AbsI(z) > 1000000 THEN 1000000 ELSE z
(* per sample: <<u of each tree as a function leaf -> value>> *)
Sample(k) ==
  LET smp == R.smp[k]
      V(t) == smp.V[t]  S(t) == smp.S[t]
      one(st, t) ==
        LET ix == TLCEval(Ix(V(t), S(t), R.X))
            part == TLCEval(Partial(st.r, Old(t)))
            newf == TLCEval([q \in Pts |-> smp.leaf[t][ix[q]]])
        IN [r |-> TLCEval(After1(part, newf)),
            u |-> Append(st.u, TLCEval([i \in Leaves(S(t)) |-> Innov(smp.leaf[t][i], CountIn(ix, i), SumIn(ix, part, i))]))]
  IN FoldLeftDomain(one, [r |-> [q \in Pts |-> 16384 * R.r[q]], u |-> <<>>], R.leaf0)

FirstLeaf(f) == CHOOSE i \in DOMAIN f : \A j \in DOMAIN f : i <= j
LastLeaf(f)  == CHOOSE i \in DOMAIN f : \A j \in DOMAIN f : i >= j

Bin(z) == Cardinality({j \in 1..5 : z >= 256 * (j - 3)})   \* 0..5

Prod(x, y) == IF AbsI(x) > 40000 \/ AbsI(y) > 40000 THEN 100000 ELSE (x * y) \div 256

DrawFails ==
  LET K == Len(R.smp)
      Sm == TLCEval([k \in 1..K |-> TLCEval(Sample(k).u)])
      cap(z) == IF z > 200000 THEN 200000 ELSE z
      (* pooled over the leaves of tree t *)
      tot(t) == FoldLeftDomain(LAMBDA z, k : z + Cardinality(DOMAIN Sm[k][t]), 0, R.smp)
      sum1(t) == FoldLeftDomain(LAMBDA z, k : z + LET f == Sm[k][t] IN SumOn(f, DOMAIN f), 0, R.smp)
      sum2(t) == FoldLeftDomain(LAMBDA z, k : z + LET f == Sm[k][t] IN
                    SumOn([i \in DOMAIN f |-> cap(Prod(f[i], f[i]))], DOMAIN f), 0, R.smp)
      below(t, j) == FoldLeftDomain(LAMBDA z, k : z + LET f == Sm[k][t] IN
                    Cardinality({i \in DOMAIN f : f[i] < 256 * (j - 3)}), 0, R.smp)
      \* one node at a time
      nodes(t) == UNION {DOMAIN Sm[k][t] : k \in 1..K}
      at(t, i) == {k \in 1..K : i \in DOMAIN Sm[k][t]}
      nsum(t, i) == LET A == at(t, i) IN SumOn([k \in A |-> Sm[k][t][i]], A)
      nsq(t, i) == LET A == at(t, i) IN SumOn([k \in A |-> cap(Prod(Sm[k][t][i], Sm[k][t][i]))], A)
      okmean(s, n) == AbsI(s) <= 256 * (6 * (ISqrt(n) + 1) + 6) + (R.slack * n)
      okvar(s, n) == AbsI(s - 256 * n) <= 256 * (6 * (ISqrt(2 * n) + 1) + 30) + n * (2 + R.slack)
      \* products of innovations of distinct leaves
      cross(t1, t2) == FoldLeftDomain(LAMBDA z, k : z +
            LET f == Sm[k][t1] g == Sm[k][t2] IN Prod(f[FirstLeaf(f)], g[IF t1 = t2 THEN LastLeaf(g) ELSE FirstLeaf(g)]), 0, R.smp)
      ncross(t1, t2) == IF t1 # t2 THEN K ELSE Cardinality({k \in 1..K : Cardinality(DOMAIN Sm[k][t1]) > 1})
      crossD(t) == FoldLeftDomain(LAMBDA z, k : z + LET f == Sm[k][t] IN
            IF Cardinality(DOMAIN f) > 1 THEN Prod(f[FirstLeaf(f)], f[LastLeaf(f)]) ELSE 0, 0, R.smp)
      (* noise variance: g ~ Gamma(shape), in 1/1024; shape2 = twice the shape *)
      ss(k) == FoldLeft(LAMBDA z, w : z + w * w, 0, R.smp[k].r) \div 128   \* half sum of squares, 1/1024
      MulShift(B, P) == ((B \div 1024) * P) \div 64 + ((B % 1024) * P) \div 65536
      g(k) == LET v == MulShift(R.beta + ss(k), R.smp[k].prec) IN IF v > 400000 THEN 400000 ELSE v
      G == TLCEval([k \in 1..K |-> g(k)])
      mu == R.shape2 * 512
      gsum == SumOn([k \in 1..K |-> (G[k] - mu)], 1..K)
      gvar == SumOn([k \in 1..K |-> LET dd == AbsI(G[k] - mu) \div 16 IN IF dd > 20000 THEN 20000 ELSE (dd * dd) \div 4096], 1..K)
      \* (units 1) expected K * shape
      ssmean == LET z == SumOn([k \in 1..K |-> ss(k) \div 64], 1..K) IN z \div K
      hi == {k \in 1..K : ss(k) \div 64 > ssmean}
      ghi == SumOn([k \in hi |-> (G[k] - mu)], hi)
      sd(n) == ISqrt(n * R.shape2 * 512) * 32 + 1024       \* sqrt(n * shape) in 1/1024
      gx(t) == SumOn([k \in 1..K |-> LET f == Sm[k][t] IN Prod(f[FirstLeaf(f)], (G[k] - mu) \div 4)], 1..K)
      tail(x) == Cardinality({k \in 1..K : G[k] > 1024 * x})
      kk == K \div 1000
  IN CASE Prop = "C08" ->
           Need(\A t \in Tr : okmean(sum1(t), tot(t)), "leaf-mean")
      \cup Need(\A t \in Tr : okvar(sum2(t), tot(t)), "leaf-variance")
      \cup Need(\A t \in Tr : \A i \in nodes(t) : LET n == Cardinality(at(t, i)) IN
                  okmean(nsum(t, i), n) /\ (n < 100 \/ okvar(nsq(t, i), n)), "leaf-mean-by-node")
      \cup Need(\A t \in Tr : R.slack > 3 \/ tot(t) < 1000 \/ \A j \in 1..5 :
                  FreqOK(below(t, j), tot(t) \div 1000, PhiTab[j], 4000 + 1000000 \div (tot(t) \div 1000)), "leaf-quantiles")
      \cup Need(\A t1, t2 \in Tr : t1 < t2 => okmean(cross(t1, t2), K), "independence-of-trees")
      \cup Need(\A t \in Tr : okmean(crossD(t), ncross(t, t)), "independence-of-leaves")
      \cup Need(\A t \in Tr : AbsI(gx(t)) <= 256 * (5 * ISqrt(R.shape2 * K) + 20) + K * R.slack, "independence-of-variance")
       [] Prop = "C09" ->
           Need(AbsI(gsum) <= 6 * sd(K) + K * 8, "variance-mean")
      \cup Need(AbsI(gvar - (K * R.shape2) \div 2) <=
                 (6 * (ISqrt(K * (3 * R.shape2 + (R.shape2 * R.shape2) \div 2)) + 1)) + (K * R.shape2) \div 40 + 30, "variance-variance")
      \cup Need(NP = 0 \/ AbsI(ghi) <= 6 * sd(Cardinality(hi)) + K * 8, "variance-depends-on-residual")
      \cup Need(R.shape2 % 2 = 1 \/ R.shape2 > 24 \/ \A x \in 1..MinI(R.shape2, 14) :
                 FreqOK(tail(x), kk, GammaTail(R.shape2 \div 2, x), 3000), "variance-quantiles")
      \cup Need(\A t \in Tr : AbsI(gx(t)) <= 256 * (5 * ISqrt(R.shape2 * K) + 20) + K * R.slack, "independence-of-leaf-draws")
      \cup Need(\A k \in 1..K : R.smp[k].prec < NF /\ R.smp[k].prec > 0, "variance-finite-positive")

(* ---- kind "tight": noise variance so small that the leaves are
   deterministic; residuals and leaves in fixed point; optionally each
   element of X stands for R.mult[q] equal points ---- *)
TightFails ==
  LET many == "mult" \in DOMAIN R
      wcount(ix, i) == IF many THEN LET A == {q \in Pts : ix[q] = i} IN SumOn([q \in A |-> R.mult[q]], A) ELSE CountIn(ix, i)
      wsum(ix, f, i) == IF many THEN LET A == {q \in Pts : ix[q] = i} IN SumOn([q \in A |-> R.mult[q] * f[q]], A) ELSE SumIn(ix, f, i)
  IN LET one(st, t) ==
        LET ix == TLCEval(Ix(R.V[t], R.S[t], R.X))
            oldf == [q \in Pts |-> R.leaf0[t][R.li0[t][q]]]
            part == TLCEval(Partial(st.r, oldf))
            newf == [q \in Pts |-> R.leaf[t][ix[q]]]
            ok(i) == LET n == wcount(ix, i) IN
                     n = 0 \/ LET s == wsum(ix, part, i) IN AbsI(R.leaf[t][i] - s \div n) <= R.tol
        IN [r |-> TLCEval(After1(part, newf)), ok |-> st.ok /\ \A i \in Leaves(R.S[t]) : ok(i)]
      f == FoldLeftDomain(one, [r |-> R.r, ok |-> TRUE], R.leaf0)
  IN Need(f.ok, "leaf-mean-sequential")

(* ---- kind "init": first noise variance ---- *)
InitFails == Need(\A j \in 1..Len(R.q) : LET q == R.q[j] IN
                    IF q.na > 0 /\ q.nb > 0 THEN Near(q.s2 * q.na, q.nb * 65536, q.na * 2 + 2 + q.nb)
                    ELSE q.s2 = 65536, "initial-variance")

Fails ==
  IF R.raised # "" THEN {"raised: " \o R.raised}
  ELSE CASE R.kind = "draws" -> DrawFails [] R.kind = "tight" -> TightFails [] R.kind = "init" -> InitFails
JVerdict == Report(Fails)
=============================================================================
