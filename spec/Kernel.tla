------------------------------- MODULE Kernel -------------------------------
(* The transition kernel on the structure of one tree: which moves are     *)
(* proposed with which probability, the tree prior, the Gaussian marginal  *)
(* likelihood, and the Metropolis-Hastings acceptance.                     *)
(*                                                                         *)
(* A context K holds the parameters:                                       *)
(*   K.d    depth            K.ms  cutpoints per predictor                 *)
(*   K.w    nonterminal probability of each depth 0..d-2, in 16ths         *)
(*   K.X    data points      K.req, K.minp  minimum points per leaf        *)
(*   K.m    number of trees  K.s2a/K.s2b  noise variance                   *)
(*   K.mult optional, how many equal points each element of K.X stands for *)
(*                                                                         *)
(* A move is [t |-> "grow", i, v, c] or [t |-> "prune", i].                *)
EXTENDS HeapTree, Numeric

WAt(K, depth) == IF depth + 1 <= Len(K.w) THEN K.w[depth + 1] ELSE 0
WNode(K, i) == WAt(K, Depth(i))

NPts(K) == Len(K.X)
IndexOf(K, V, S) == [q \in 1..Len(K.X) |-> Traverse(V, S, K.X[q])]
CountAt(K, idx, i) ==
  IF "mult" \in DOMAIN K
  THEN LET A == {q \in DOMAIN idx : idx[q] = i} IN SumOn([q \in A |-> K.mult[q]], A)
  ELSE Cardinality({q \in DOMAIN idx : idx[q] = i})

GrowableK(K, V, S) ==
  IF ~K.req THEN UpperLeaves(S)
  ELSE LET idx == IndexOf(K, V, S)
       IN {i \in UpperLeaves(S) : CountAt(K, idx, i) >= 2 * K.minp}

(* moves with positive proposal probability *)
GrowMoves(K, V, S) ==
  UNION {UNION {{[t |-> "grow", i |-> i, v |-> v, c |-> c] : c \in Cuts(V, S, K.ms, i, v)}
                : v \in Drawable(V, S, K.ms, i)} : i \in GrowableK(K, V, S)}
PruneMoves(S) == {[t |-> "prune", i |-> i, v |-> 0, c |-> 0] : i \in Prunable(S)}
Moves(K, V, S) == GrowMoves(K, V, S) \cup PruneMoves(S)

After(V, S, mv) ==
  IF mv.t = "grow" THEN Grow(V, S, mv.i, mv.v, mv.c) ELSE <<V, PruneS(S, mv.i)>>

(* a grow may be drawn that can't be used: no cutpoints for the predictor *)
VoidPossible(K, V, S) ==
  \E i \in GrowableK(K, V, S) :
     \/ Drawable(V, S, K.ms, i) = {}
     \/ \E v \in Drawable(V, S, K.ms, i) : Cuts(V, S, K.ms, i, v) = {}

(* ---- proposal probabilities as fractions <<num, den>> ---- *)
PGrowDen(K, V, S)  == IF Dec(S) # {} THEN 2 ELSE 1          \* given growable leaves
PPruneDen(K, V, S) == IF GrowableK(K, V, S) # {} THEN 2 ELSE 1

WSum(K, V, S) == SumOn([i \in GrowableK(K, V, S) |-> WNode(K, i)], GrowableK(K, V, S))

LeafProb(K, V, S, i) == <<WNode(K, i), WSum(K, V, S)>>
ProposeProb(K, V, S, mv) ==
  IF mv.t = "prune"
  THEN <<1, PPruneDen(K, V, S) * Cardinality(Prunable(S))>>
  ELSE LET l == LeafProb(K, V, S, mv.i)
       IN <<l[1], PGrowDen(K, V, S) * l[2]
                  * Cardinality(Drawable(V, S, K.ms, mv.i))
                  * Cardinality(Cuts(V, S, K.ms, mv.i, mv.v))>>

(* ---- log of the prior-transition ratio of larger tree over smaller ----
   S is the smaller tree, i the leaf that is grown, (V2, S2) the larger one *)
LogTransPrior(K, V, S, i, V2, S2) ==
  LET dep == Depth(i) w == WAt(K, dep) wc == WAt(K, dep + 1)
  IN   Ln(w) - Ln(16 - w) + 2 * (Ln(16 - wc) - Ln(16))       \* prior
     - (Ln(WNode(K, i)) - Ln(WSum(K, V, S)) - Ln(PGrowDen(K, V, S)))
     - Ln(Cardinality(Prunable(S2))) - Ln(PPruneDen(K, V2, S2))

(* ---- log likelihood ratio, larger over smaller ----
   R: residuals excluding this tree (integers), summed over the points that
   an element of K.X stands for; idx2: leaf indices in the larger tree *)
SumAt(R, idx, i) == LET A == {q \in DOMAIN idx : idx[q] = i} IN SumOn(R, A)
LogLik(K, R, idx2, i) ==
  LET a == K.s2a b == K.s2b m == K.m
      nl == CountAt(K, idx2, 2 * i)  nr == CountAt(K, idx2, 2 * i + 1)
      l == SumAt(R, idx2, 2 * i)  r == SumAt(R, idx2, 2 * i + 1)
      al == a * m + nl * b  ar == a * m + nr * b  at == a * m + (nl + nr) * b
      quad(x, n) == DivMicro(b * b * x * x, 2 * a * n)
  IN (Ln(a * m) + Ln(at) - Ln(al) - Ln(ar)) \div 2
     + quad(l, al) + quad(r, ar) - quad(l + r, at)

(* log ratio of a move from (V,S) and its two factors, larger over smaller *)
Factors(K, V, S, R, mv) ==
  LET big == IF mv.t = "grow" THEN After(V, S, mv) ELSE <<V, S>>
      sml == IF mv.t = "grow" THEN <<V, S>> ELSE <<V, PruneS(S, mv.i)>>
      idx2 == IndexOf(K, big[1], big[2])
  IN [ltp |-> LogTransPrior(K, sml[1], sml[2], mv.i, big[1], big[2]),
      ll  |-> IF NPts(K) = 0 THEN 0 ELSE LogLik(K, R, idx2, mv.i),
      ok  |-> (~K.req) \/ (CountAt(K, idx2, 2 * mv.i) >= K.minp /\
                           CountAt(K, idx2, 2 * mv.i + 1) >= K.minp)]
LogRatio(f, mv) == IF mv.t = "grow" THEN f.ltp + f.ll ELSE -(f.ltp + f.ll)

(* probability, in millionths, that the move is proposed and accepted *)
MoveProb(K, V, S, R, mv) ==
  LET f == Factors(K, V, S, R, mv)
      q == ProposeProb(K, V, S, mv)
  IN IF ~f.ok THEN 0
     ELSE MulMicro(DivMicro(q[1], q[2]), AccProb(LogRatio(f, mv)))

(* ---- the tree prior from first principles, as prime factorizations ---- *)
Primes == {2, 3, 5, 7, 11, 13, 17}
RECURSIVE Exponent(_, _)
Exponent(n, p) == IF n % p # 0 THEN 0 ELSE 1 + Exponent(n \div p, p)
Fact(n) == [p \in Primes |-> Exponent(n, p)]
One == [p \in Primes |-> 0]
Mul(f, g) == [p \in Primes |-> f[p] + g[p]]
Dvd(f, g) == [p \in Primes |-> f[p] - g[p]]
FFrac(q) == Dvd(Fact(q[1]), Fact(q[2]))

RECURSIVE PriorOver(_, _, _, _)
PriorOver(K, V, S, A) ==
  IF A = {} THEN One
  ELSE LET i == CHOOSE x \in A : TRUE
           f == IF At(S, i) # 0
                THEN Dvd(Dvd(FFrac(<<WNode(K, i), 16>>),
                             Fact(Cardinality(Drawable(V, S, K.ms, i)))),
                         Fact(Cardinality(Cuts(V, S, K.ms, i, V[i]))))
                ELSE FFrac(<<16 - WNode(K, i), 16>>)
       IN Mul(f, PriorOver(K, V, S, A \ {i}))
Prior(K, V, S) == PriorOver(K, V, S, Dec(S) \cup Leaves(S))

(* ln prior in millionths *)
RECURSIVE LnPriorOver(_, _, _, _)
LnPriorOver(K, V, S, A) ==
  IF A = {} THEN 0
  ELSE LET i == CHOOSE x \in A : TRUE
       IN LnPriorOver(K, V, S, A \ {i}) +
          (IF At(S, i) # 0
           THEN Ln(WNode(K, i)) - Ln(16) - Ln(Cardinality(Drawable(V, S, K.ms, i)))
                - Ln(Cardinality(Cuts(V, S, K.ms, i, V[i])))
           ELSE Ln(16 - WNode(K, i)) - Ln(16))
LnPrior(K, V, S) == LnPriorOver(K, V, S, Dec(S) \cup Leaves(S))
=============================================================================
