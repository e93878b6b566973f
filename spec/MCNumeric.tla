----------------------------- MODULE MCNumeric -----------------------------
(* The tables are logarithm and exponential: ln 1 = 0, ln ab = ln a + ln b,*)
(* 1/(n+1) < ln(n+1) - ln n < 1/n; exp(-x) inverts ln; exp(-x-y).          *)
EXTENDS Numeric
VARIABLE n
Init == n = 1
Next == n < 8191 /\ n' = n + 1
Spec == Init /\ [][Next]_n
LnInv ==
  /\ Ln(1) = 0
  /\ Ln(n + 1) - Ln(n) <= Micro \div n + 1
  /\ Ln(n + 1) - Ln(n) >= Micro \div (n + 1) - 1
  /\ AbsI(Ln(97 * n) - Ln(97) - Ln(n)) <= 10      \* beyond the table
  /\ \A a \in {2, 3, 5, 7, 11, 13} : n % a = 0 => AbsI(Ln(n) - Ln(a) - Ln(n \div a)) <= 1
ExpInv ==
  /\ n <= 4000 => AbsI(ExpNeg(Ln(n)) - Micro \div n) <= 2
  /\ n <= 900 => AbsI(ExpNeg(n * 15625) - MulMicro(ExpNeg((n \div 2) * 15625), ExpNeg((n - n \div 2) * 15625))) <= 3
  /\ n <= 2000 => AbsI(ISqrt(n * n + n) - n) = 0
DivInv == DivMicro(n, n) = Micro /\ AbsI(DivMicro(1, n) - Micro \div n) <= 1
       /\ DivMicro(-n, 7) = -DivMicro(n, 7)
(* the survival function of chi square is elementary for even degrees of   *)
(* freedom; the odd ones are interlaced with convex differences            *)
Times(a, b) == (a \div 1000) * (b \div 1000) + ((a % 1000) * (b \div 1000) + (a \div 1000) * (b % 1000)) \div 1000
Surv(v, x) == CASE v = 2 -> ExpNeg(x) [] v = 4 -> MulMicro(ExpNeg(x), 1000000) + Times(ExpNeg(x), x)
                [] v = 6 -> ExpNeg(x) + Times(ExpNeg(x), x) + Times(ExpNeg(x), Times(x, x) \div 2)
ChiInv == n = 1 => \A j \in 1..5 : LET q == ChiQ[j] IN
   /\ \A v \in {2, 4, 6} : AbsI(Surv(v, ChiHalf(v, q)) - q * 1000) <= 60
   /\ \A v \in 2..11 : LET a == ChiHalf(v - 1, q) b == ChiHalf(v, q) c == ChiHalf(v + 1, q)
                        IN a < b /\ b < c /\ (v >= 3 => c - b >= b - a)
=============================================================================
