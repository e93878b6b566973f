----------------------------- MODULE MCKernel -----------------------------
(* The kernel is a probability distribution and its acceptance ratio gives *)
(* exact detailed balance with respect to the prior (restricted to trees   *)
(* with enough points per leaf), checked in exact arithmetic on every move *)
(* between all the trees that exist for small constants; and the graph of  *)
(* moves is connected: every admissible tree is reachable and left again.  *)
EXTENDS Kernel
CONSTANTS KK
VARIABLES V, S
vars == <<V, S>>

Norm(v, s) == [i \in DOMAIN v |-> IF s[i] = 0 THEN 0 ELSE v[i]]

Init == V = Empty(KK.d) /\ S = Empty(KK.d)
Legal(mv) ==
  LET big == IF mv.t = "grow" THEN After(V, S, mv) ELSE <<V, S>>
      idx == IndexOf(KK, big[1], big[2])
  IN ~KK.req \/ (CountAt(KK, idx, 2 * mv.i) >= KK.minp /\ CountAt(KK, idx, 2 * mv.i + 1) >= KK.minp)
Next == \E mv \in Moves(KK, V, S) :
          Legal(mv) /\ LET a == After(V, S, mv) IN V' = Norm(a[1], a[2]) /\ S' = a[2]
Spec == Init /\ [][Next]_vars

Valid == ValidTree(V, S, KK.ms)

(* exact sum of fractions *)
RECURSIVE SumFrac(_)
SumFrac(A) ==
  IF A = {} THEN <<0, 1>>
  ELSE LET x == CHOOSE y \in A : TRUE
           r == SumFrac(A \ {x})
           q == ProposeProb(KK, V, S, x)
           n == q[1] * r[2] + r[1] * q[2]
           dd == q[2] * r[2]
           g == Gcd(n, dd)
       IN <<n \div g, dd \div g>>
Total == LET mv == Moves(KK, V, S) s == SumFrac(mv) IN
  IF mv = {} THEN TRUE
  ELSE IF VoidPossible(KK, V, S) THEN s[1] <= s[2]
  ELSE s = <<1, 1>>

(* ratio used by the sampler, as factors: prior ratio over proposal ratio *)
RatioCoded(mv, v2, s2) ==
  LET dep == Depth(mv.i) w == WAt(KK, dep) wc == WAt(KK, dep + 1)
      tree == Mul(Dvd(Fact(w), Fact(16 - w)), Dvd(Mul(Fact(16 - wc), Fact(16 - wc)), Fact(256)))
      inv  == Mul(FFrac(LeafProb(KK, V, S, mv.i)), Fact(Cardinality(Prunable(s2))))
  IN Dvd(Dvd(tree, inv), Dvd(Fact(PPruneDen(KK, v2, s2)), Fact(PGrowDen(KK, V, S))))

DetailedBalance ==
  \A mv \in GrowMoves(KK, V, S) :
    Legal(mv) =>
      LET a == After(V, S, mv) v2 == a[1] s2 == a[2]
          back == [t |-> "prune", i |-> mv.i, v |-> 0, c |-> 0]
          first == Mul(Dvd(Prior(KK, v2, s2), Prior(KK, V, S)),
                       Dvd(FFrac(ProposeProb(KK, v2, s2, back)), FFrac(ProposeProb(KK, V, S, mv))))
      IN /\ back \in Moves(KK, v2, s2)
         /\ RatioCoded(mv, v2, s2) = first

(* the fixed-point logarithms agree with the exact factors *)
RECURSIVE LnFact(_, _)
LnFact(f, A) == IF A = {} THEN 0 ELSE LET p == CHOOSE x \in A : TRUE
                IN f[p] * Ln(p) + LnFact(f, A \ {p})
LogsAgree ==
  \A mv \in GrowMoves(KK, V, S) : Legal(mv) =>
    LET a == After(V, S, mv) IN
    AbsI(LogTransPrior(KK, V, S, mv.i, a[1], a[2]) - LnFact(RatioCoded(mv, a[1], a[2]), Primes)) <= 60

(* connected: from every reachable tree every prune is legal, thus the root
   is reached back *)
PrunesLegal == \A mv \in PruneMoves(S) : Legal(mv)

(* likelihood ratios of different orders of growing agree: the log lik is a
   difference of a function of the trees (potential) *)
R0 == [q \in 1..NPts(KK) |-> ((q * 7) % 5) - 2]
RECURSIVE PotOver(_, _)
PotOver(idx, A) ==
  IF A = {} THEN 0
  ELSE LET i == CHOOSE x \in A : TRUE n == CountAt(KK, idx, i) s == SumAt(R0, idx, i)
           den == KK.s2a * KK.m + n * KK.s2b
       IN PotOver(idx, A \ {i}) - (Ln(den) - Ln(KK.s2a * KK.m)) \div 2
          + DivMicro(KK.s2b * KK.s2b * s * s, 2 * KK.s2a * den)
Pot(v, s) == PotOver(IndexOf(KK, v, s), Leaves(s))
LikPotential ==
  \A mv \in GrowMoves(KK, V, S) :
    LET a == After(V, S, mv) f == Factors(KK, V, S, R0, mv) IN
    AbsI(f.ll - (Pot(a[1], a[2]) - Pot(V, S))) <= 20

X6 == << <<0, 0>>, <<1, 1>>, <<2, 0>>, <<2, 1>>, <<0, 1>>, <<1, 0>> >>
Base == [d |-> 3, ms |-> <<2, 1>>, w |-> <<8, 4>>, X |-> <<>>, req |-> FALSE, minp |-> 0, m |-> 1, s2a |-> 1, s2b |-> 1]
KA == Base
KB == [Base EXCEPT !.ms = <<1, 1>>, !.w = <<12, 4>>]
KC == [Base EXCEPT !.ms = <<0, 2, 1>>]
KD == [Base EXCEPT !.X = X6, !.req = TRUE, !.minp = 1]
KE == [Base EXCEPT !.X = X6, !.req = TRUE, !.minp = 2, !.m = 2, !.s2b = 2]
KF == [Base EXCEPT !.d = 4, !.ms = <<1, 2>>, !.w = <<12, 8, 10>>]
KG == [Base EXCEPT !.X = X6, !.d = 4, !.ms = <<2, 1>>, !.w = <<12, 8, 10>>, !.req = TRUE, !.minp = 1]
(* points standing for several equal ones *)
KH == [d |-> 3, ms |-> <<2, 1>>, w |-> <<8, 4>>, X |-> X6, mult |-> <<1, 3, 2, 1, 2, 1>>, req |-> TRUE, minp |-> 2, m |-> 1, s2a |-> 1, s2b |-> 1]
RECURSIVE Times1(_, _)
Times1(x, n) == IF n = 0 THEN <<>> ELSE <<x>> \o Times1(x, n - 1)
RECURSIVE Spread(_, _)
Spread(f, m) == IF f = <<>> THEN <<>> ELSE Times1(Head(f), Head(m)) \o Spread(Tail(f), Tail(m))
MultSame == "mult" \in DOMAIN KK =>
  LET big == [d |-> KK.d, ms |-> KK.ms, w |-> KK.w, X |-> Spread(KK.X, KK.mult), req |-> KK.req,
              minp |-> KK.minp, m |-> KK.m, s2a |-> KK.s2a, s2b |-> KK.s2b]
      each == Spread(R0, KK.mult)
      sums == [q \in 1..Len(KK.X) |-> R0[q] * KK.mult[q]]
  IN /\ Moves(KK, V, S) = Moves(big, V, S)
     /\ \A mv \in Moves(KK, V, S) : Factors(KK, V, S, sums, mv) = Factors(big, V, S, each, mv)
=============================================================================
