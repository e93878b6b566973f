---------------------------- MODULE Conditional ----------------------------
(* The conditional distributions of one iteration of the chain (C08, C09). *)
(*                                                                         *)
(* Noise variance s2 = a/b; leaf prior variance 1/m.  Leaf i holding n     *)
(* points whose partial residuals (data minus all the other trees) sum to  *)
(* s:   value ~ N(b s / (n b + m a), a / (n b + m a)).                     *)
(* Noise variance ~ InvGamma(alpha + n/2, beta + sum of squares / 2).      *)
(* Everything here is exact integer arithmetic: a precision is the pair    *)
(* (PrecNum, a), a mean the pair (b s, PrecNum).                           *)
EXTENDS HeapTree, Numeric

PrecNum(a, b, m, n) == n * b + m * a
MeanNum(b, s) == b * s

(* sums over the points of each node: f is a sequence over points *)
SumIn(ix, f, i) == FoldLeftDomain(LAMBDA z, q : IF ix[q] = i THEN z + f[q] ELSE z, 0, f)
CountIn(ix, i) == Cardinality({q \in DOMAIN ix : ix[q] = i})
Ix(V, S, X) == [q \in 1..Len(X) |-> Traverse(V, S, X[q])]

(* one tree's update: given the residual r before it (data minus all the
   trees, this one included at its old values oldf) the partial residual is
   r + oldf, and the residual after the new values newf is r + oldf - newf *)
Partial(r, oldf) == [q \in DOMAIN r |-> r[q] + oldf[q]]
After1(part, newf) == [q \in DOMAIN part |-> part[q] - newf[q]]

(* standard normal distribution function at -2, -1, 0, 1, 2 in millionths *)
PhiTab == <<22750, 158655, 500000, 841345, 977250>>

(* P(Gamma(k) > x) for integer k and x, in millionths: a Poisson sum *)
RECURSIVE LnFact(_)
LnFact(j) == IF j <= 1 THEN 0 ELSE LnFact(j - 1) + Ln(j)
PoisTerm(x, j) == AccProb(j * Ln(x) - x * Micro - LnFact(j))
GammaTail(k, x) == FoldLeftDomain(LAMBDA z, j : z + PoisTerm(x, j - 1), 0, [j \in 1..k |-> 0])
=============================================================================
