----------------------------- MODULE JInterface -----------------------------
(* Judge of the gbart interface (C16, C17, C18), of side effects (C21) and *)
(* of tuning options (C22).                                                *)
EXTENDS Judging, Numeric, Bins, HeapTree, FiniteSetsExt
R == Records[idx]

NearSeq(a, b, tol) == Len(a) = Len(b) /\ \A j \in 1..Len(a) : a[j] = b[j] \/ Near(a[j], b[j], tol)
NearMat(a, b, tol) == Len(a) = Len(b) /\ \A j \in 1..Len(a) : NearSeq(a[j], b[j], tol)

(* ---------------------------------------------------------------- C16 *)
(* binning of raw values by the cutpoints the training values imply        *)
Sorted(s) == SetToSortSeq(ToSet(s), LAMBDA a, b : a < b)
QCuts == TLCEval([v \in 1..Len(R.x) |->
           LET U == Sorted(R.x[v]) IN
           [k \in 1..Used(U, R.n, R.numcut + 1) |->
              LET c == Choice(U, R.n, R.numcut + 1, k) j == CHOOSE j \in c : TRUE
              IN IF Cardinality(c) = 1 THEN U[j] + U[j + 1] ELSE Assert(FALSE, "ambiguous cutpoint")]])
LoOf(v) == LET s == ToSet(R.x[v]) IN CHOOSE a \in s : \A b \in s : a <= b
HiOf(v) == LET s == ToSet(R.x[v]) IN CHOOSE a \in s : \A b \in s : a >= b
Los == TLCEval([v \in 1..Len(R.x) |-> LoOf(v)])
His == TLCEval([v \in 1..Len(R.x) |-> HiOf(v)])
(* number of j in 1..nb-1 with nb lo + j (hi - lo) < nb x *)
GridBin(nb, lo, hi, a) ==
  IF hi = lo THEN (IF a > lo THEN nb - 1 ELSE 0)
  ELSE IF a <= lo THEN 0
  ELSE LET d == nb * (a - lo) h == hi - lo c == (d - 1) \div h IN Min2(c, nb - 1)
RawBin(v, a) == IF R.usequants = 1 THEN Bin(2 * a, QCuts[v]) ELSE GridBin(R.numcut + 1, Los[v], His[v], a)
Ties == R.usequants = 0 /\ \E v \in 1..Len(R.x) : His[v] > Los[v] /\ \E a \in ToSet(R.x[v]) \cup ToSet(R.xt[v]) :
           a > Los[v] /\ a < His[v] /\ ((R.numcut + 1) * (a - Los[v])) % (His[v] - Los[v]) = 0
BinnedTrain == TLCEval([i \in 1..R.n |-> [v \in 1..Len(R.x) |-> RawBin(v, R.x[v][i])]])
BinnedTest == TLCEval([i \in 1..R.nt |-> [v \in 1..Len(R.x) |-> RawBin(v, R.xt[v][i])]])
Forest(F, x) == FoldLeftDomain(LAMBDA z, t : z + F.L[t][Traverse(F.V[t], F.S[t], x)], 0, F.S)
(* sd * Y = sd * offset + sn * sum of leaves *)
OutOK(y, F, x) == Dist(R.sd * y, R.sd * R.off + R.sn * Forest(F, x)) <= R.sd * R.tol + R.sn * (Len(F.S) \div 2 + 2)
Mean(m, rows, i) == Dist(FoldLeft(LAMBDA z, r : z + r[i], 0, rows), m * Len(rows)) <= Len(rows) * 3
(* sigma in thousandths, noise variance in millionths *)
Sigma(s, v) == LET a == R.sd * R.sd * s * s b == R.sn * R.sn * v
               IN Dist(a, b) <= R.sd * R.sd * (s + 2) * 2 + R.sn * R.sn
FitFails ==
       Need(~Ties, "machinery-ties")
  \cup Need(R.shapes = <<<<R.nd, R.n>>, <<R.n>>, <<R.nd, R.nt>>, <<R.nt>>, <<R.nd>>, <<R.nskip>>>>, "shapes")
  \cup (IF R.shapes # <<<<R.nd, R.n>>, <<R.n>>, <<R.nd, R.nt>>, <<R.nt>>, <<R.nd>>, <<R.nskip>>>> THEN {} ELSE
        Need(NearMat(R.yhat_train, R.pred_train, 2), "predict-at-training-points")
   \cup Need(NearMat(R.yhat_test, R.pred_test, 2), "predict-at-test-points")
   \cup Need(R.nd = 0 \/ \A i \in 1..R.n : Mean(R.mean_train[i], R.yhat_train, i), "mean-train")
   \cup Need(R.nd = 0 \/ \A i \in 1..R.nt : Mean(R.mean_test[i], R.yhat_test, i), "mean-test")
   \cup (IF R.captured = 0 THEN {} ELSE
         Need(R.X = BinnedTrain, "sampler-predictors")
    \cup Need(Len(R.F) = R.nd /\ \A j \in 1..R.nd : \A i \in 1..R.n : OutOK(R.yhat_train[j][i], R.F[j], BinnedTrain[i]), "yhat-train-of-the-forest")
    \cup Need(Len(R.F) = R.nd /\ \A j \in 1..R.nd : \A i \in 1..R.nt : OutOK(R.yhat_test[j][i], R.F[j], BinnedTest[i]), "yhat-test-of-the-forest")
    \cup Need(Len(R.s2) = R.nd /\ \A j \in 1..R.nd : Sigma(R.sigma[j], R.s2[j]), "sigma")
    \cup Need(Len(R.fs2) = R.nskip /\ \A j \in 1..R.nskip : Sigma(R.first_sigma[j], R.fs2[j]), "first-sigma")))

(* queries in any order *)
Ops == ToSet(R.ops)
HistFails ==
       Need({h.q : h \in ToSet(R.hists)} = UNION {[1..k -> Ops] : k \in R.len..R.len}, "machinery-histories")
  \cup Need(\A h \in ToSet(R.hists) : \A j \in 1..Len(h.q) : h.ans[j] = R.answer[CHOOSE o \in 1..Len(R.ops) : R.ops[o] = h.q[j]], "answer-depends-on-history")
  \cup Need(\A h \in ToSet(R.hists) : h.fit = R.fit, "query-changes-the-fit")
VecFails == Need(NearMat(R.a, R.b, R.tol), R.why)
DiffFails == Need(\E j \in 1..Len(R.a) : ~NearSeq(R.a[j], R.b[j], R.tol), R.why)
RejectFails == Need(R.rejected = 1, R.why)

(* ---------------------------------------------------------------- C17 *)
(* y integers; rn/rd = scale = range / 2k; Q resolution of real numbers *)
Q == 4096
SumS(s) == FoldLeft(LAMBDA a, b : a + b, 0, s)
Dot(a, b) == FoldLeftDomain(LAMBDA z, i : z + a[i] * b[i], 0, a)
YRange == IF R.n = 0 THEN 0 ELSE LET s == ToSet(R.y) IN (CHOOSE a \in s : \A b \in s : a >= b) - (CHOOSE a \in s : \A b \in s : a <= b)
Rn == IF R.n < 2 THEN 1 ELSE YRange * R.kd
Rd == IF R.n < 2 THEN 1 ELSE 2 * R.kn
YY == R.n * Dot(R.y, R.y) - SumS(R.y) * SumS(R.y)           \* n * centered sum of squares
(* predictors are a + b * (row of a Hadamard matrix): orthogonal, centered *)
Dirs == {h \in ToSet(R.H) : \E i \in 1..Len(h) : h[i] # h[1]}
NoFlip == \A g, h \in Dirs : g = h \/ Dot(g, h) = 0
Rank == Cardinality(Dirs)
SSE == YY - FoldLeft(LAMBDA z, h : z + Dot(h, R.y) * Dot(h, R.y), 0, SetToSeq(Dirs))   \* n * residual sum of squares
(* sigest in thousandths *)
SigOK == CASE R.sigmode = "given" -> Near(R.sigest, R.sigarg, 1)
           [] R.sigmode = "none" -> R.sigest = NF
           [] R.sigmode = "auto" ->
              IF R.n < 2 THEN Near(R.sigest, 1000, 1)
              ELSE LET s == R.sigest
                       q == (s * s) \div 1000
                       e == (2 * s) \div 1000 + 3
                   IN s < 40000 /\ s >= 0 /\
                   IF R.n <= R.p THEN Dist(R.n * R.n * q, YY * 1000) <= R.n * R.n * e
                   ELSE LET d == R.n * (R.n - Rank) IN Dist(d * q, SSE * 1000) <= d * e
LamOK == IF R.sigmode = "none" THEN Near(R.lam, R.lamarg, 1 + R.lamarg \div 100000)
         ELSE LET e == 2 * ChiHalf(R.sigdf, R.sigquant) IN Dist(R.rho * R.sigdf, e) <= 40 + e \div 20000
OffOK == IF R.offmode = 1 THEN Near(R.off, R.offarg * Q, 2)
         ELSE IF R.n = 0 THEN R.off = 0 ELSE Dist(R.n * R.off, Q * SumS(R.y)) <= R.n * 2
Pow(a, k) == IF k = 0 THEN 1 ELSE IF k = 1 THEN a ELSE IF k = 2 THEN a * a ELSE a * a * a
Has(f) == f \in ToSet(R.ovk)
NonTerm == IF Has("p_nonterminal") THEN R.ov.p_nonterminal
           ELSE [d \in 1..(R.maxdepth - 1) |-> R.base \div Pow(d, R.power)]
(* beta = lamda sigdf / (2 scale^2), relative comparison in units 1/R.bq *)
BetaOK == LET a == Rn * Rn * R.beta b == Rd * Rd * R.lamb IN Dist(2 * a, b * R.sigdf) <= 2 * Rn * Rn * (2 + R.beta \div 5000) + Rd * Rd * R.sigdf
(* standardized response: R.resid / Q = (y - offset) / scale *)
Std(i) == IF R.offmode = 1 \/ R.n = 0
          THEN Dist(Rn * R.resid[i], Rd * Q * (R.y[i] - R.offarg)) <= 2 * Rn + Rd
          ELSE Dist(R.n * Rn * R.resid[i], Rd * Q * (R.n * R.y[i] - SumS(R.y))) <= R.n * (2 * Rn + Rd)
PriorFails ==
  IF R.off = NF \/ R.scale = NF \/ R.lam = NF \/ (R.sigest = NF /\ R.sigmode # "none") THEN {"not-finite"} ELSE
       Need(R.n < 2 \/ R.n <= R.p \/ R.sigmode # "auto" \/ NoFlip, "machinery-design")
  \cup Need(OffOK, "offset")
  \cup Need(Dist(Rd * R.scale, Rn * Q) <= Rd * 2, "scale")
  \cup Need(SigOK, "sigest")
  \cup Need(LamOK, "lamda")
  \cup Need(R.attr = <<R.ntree, R.maxdepth>>, "attributes")
  \cup (IF R.captured = 0 THEN {} ELSE
        Need(Len(R.resid) = R.n /\ \A i \in 1..R.n : Std(i), "standardized-response")
   \cup Need(R.pnt = NonTerm \/ NearSeq(R.pnt, NonTerm, 2), "nonterminal-probability")
   \cup Need(R.trees = (IF Has("num_trees") THEN R.ov.num_trees ELSE R.ntree), "number-of-trees")
   \cup Need(R.nodes = Pow2(Len(NonTerm) + 1), "depth-of-trees")
   \cup Need(R.minp = (IF Has("min_points_per_leaf") THEN R.ov.min_points_per_leaf ELSE 5), "minimum-leaf-size")
   \cup Need(R.alpha2 = (IF Has("sigma2_alpha") THEN R.ov.sigma2_alpha ELSE R.sigdf), "noise-prior-shape")
   \cup Need(IF Has("sigma2_beta") THEN Near(R.beta, R.ov.sigma2_beta, 2) ELSE BetaOK, "noise-prior-scale")
   \cup Need(R.ratios = (IF Has("save_ratios") THEN 1 ELSE 0), "ratios-option")
   \cup Need(R.sched = R.sched0, "schedule"))

(* ---------------------------------------------------------------- C18 *)
(* u: results for the response y in units 1/q; v: results for 2^e (A + y) *)
(* in units 2^e / q, lamda in units of their square                        *)
Shift(u, v) == Len(u) = Len(v) /\ \A j \in 1..Len(u) : Near(v[j], R.A * R.q + u[j], R.tol)
Same(u, v) == Len(u) = Len(v) /\ \A j \in 1..Len(u) : Near(v[j], u[j], R.tol)
ShiftFails ==
       Need(Len(R.u.pred) = Len(R.v.pred) /\ \A j \in 1..Len(R.u.pred) : Shift(R.u.pred[j], R.v.pred[j]), "predictions")
  \cup Need(Shift(R.u.mean, R.v.mean), "mean-predictions")
  \cup Need(Shift(<<R.u.off>>, <<R.v.off>>), "offset")
  \cup Need(Same(<<R.u.scale>>, <<R.v.scale>>), "scale")
  \cup Need(Same(R.u.sigma, R.v.sigma), "sigma")
  \cup Need(Same(R.u.first, R.v.first), "first-sigma")
  \cup Need(Same(<<R.u.sigest>>, <<R.v.sigest>>), "sigest")
  \cup Need(Same(<<R.u.lam>>, <<R.v.lam>>), "lamda")
  \cup Need(R.u.trees = R.v.trees, "trees")

(* ---------------------------------------------------------------- C21 *)
PureFails == Need(R.before = R.after, "input-modified: " \o R.what)
        \cup Need(R.same = <<>> \/ R.same[1] = R.same[2], "outcome-not-repeatable: " \o R.what)

(* ---------------------------------------------------------------- C22 *)
OptFails ==
       Need(Len(R.a) = Len(R.b) /\ Len(R.a) > 0, "machinery-length")
  \cup Need(\A j \in 1..Len(R.a) : R.a[j].tree = R.b[j].tree /\ R.a[j].c = R.b[j].c /\ R.a[j].li = R.b[j].li, "trees: " \o R.why)
  \cup Need(\A j \in 1..Len(R.a) : NearSeq(R.a[j].leaf, R.b[j].leaf, R.tol) /\ NearSeq(R.a[j].r, R.b[j].r, R.tol), "leaf-values: " \o R.why)
  \cup Need(\A j \in 1..Len(R.a) : NearSeq(R.a[j].s2, R.b[j].s2, R.tol), "noise-variance: " \o R.why)

(* automatic batch sizes: whole, positive, and on GPU the table of the
   counts of all batches (4 bytes each) within 2^29 bytes if there are
   that many leaves *)
AutoFails ==
  LET nb == IF R.size[2] <= 0 THEN 0 ELSE (R.n + R.size[2] - 1) \div R.size[2]
  IN   Need(R.whole = 1 /\ \A j \in 1..2 : R.size[j] >= 0 /\ (R.auto[j] = 0 => R.size[j] = 0), "automatic-size")
  \cup Need(R.gpu = 0 \/ nb <= 1 \/ nb <= 134217728 \div R.forest + 1, "automatic-size-memory")

Fails ==
  IF R.raised # "" THEN {"raised: " \o R.raised}
  ELSE CASE R.kind = "fit" -> FitFails [] R.kind = "hist" -> HistFails [] R.kind = "vec" -> VecFails [] R.kind = "diff" -> DiffFails
         [] R.kind = "reject" -> RejectFails [] R.kind = "prior" -> PriorFails [] R.kind = "shift" -> ShiftFails
         [] R.kind = "pure" -> PureFails [] R.kind = "opt" -> OptFails [] R.kind = "auto" -> AutoFails
JVerdict == Report(Fails)
=============================================================================
