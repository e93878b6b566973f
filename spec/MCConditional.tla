--------------------------- MODULE MCConditional ---------------------------
(* The stated conditionals are the conditionals of the joint model: for    *)
(* every small data set the exponent of the joint density as a function of *)
(* the leaf value x is the Gaussian exponent, up to a constant:            *)
(*   b/a sum (r - x)^2 + m x^2 = (x - mean)^2 / var + const                *)
(* and sequential backfitting keeps the residual equal to data - forest.   *)
EXTENDS Conditional
VARIABLES r, a, b, m, x
vars == <<r, a, b, m, x>>
Dom == -2..2
Init == /\ r \in UNION {[1..k -> Dom] : k \in 0..3}
        /\ a \in {1, 2} /\ b \in {1, 3} /\ m \in {1, 2, 5} /\ x = 0
Next == x < 4 /\ x' = x + 1 /\ UNCHANGED <<r, a, b, m>>
N_ == Len(r)
S_ == FoldLeft(LAMBDA u, v : u + v, 0, r)
(* a times the joint exponent at value y *)
Joint(y) == b * FoldLeft(LAMBDA u, v : u + (v - y) * (v - y), 0, r) + a * m * y * y
(* a * PrecNum * (Gaussian exponent) = (PrecNum y - MeanNum)^2 *)
Gauss(y) == LET p == PrecNum(a, b, m, N_) IN (p * y - MeanNum(b, S_)) * (p * y - MeanNum(b, S_))
Conjugate == LET p == PrecNum(a, b, m, N_)
             IN p * Joint(x) - Gauss(x) = p * Joint(0) - Gauss(0)
(* two trees updated one after the other, arbitrary new values *)
Backfit == LET old1 == [q \in DOMAIN r |-> q % 2] old2 == [q \in DOMAIN r |-> 1]
               new1 == [q \in DOMAIN r |-> x] new2 == [q \in DOMAIN r |-> x - q]
               y == [q \in DOMAIN r |-> r[q] + old1[q] + old2[q]]
               r1 == After1(Partial(r, old1), new1)
               r2 == After1(Partial(r1, old2), new2)
           IN /\ \A q \in DOMAIN r : Partial(r1, old2)[q] = y[q] - new1[q]
              /\ \A q \in DOMAIN r : r2[q] = y[q] - new1[q] - new2[q]
Tails == /\ GammaTail(1, 1) \in 367870..367890 /\ GammaTail(2, 1) \in 735740..735770
         /\ GammaTail(3, 5) \in 124600..124700 /\ GammaTail(6, 4) \in 785000..785250
         /\ GammaTail(12, 14) \in 260000..260080 /\ GammaTail(12, 8) \in 888000..888120
Inv == Conjugate /\ Backfit /\ Tails
=============================================================================
