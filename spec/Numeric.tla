------------------------------ MODULE Numeric ------------------------------
(* Fixed-point arithmetic in millionths within TLC's 32 bit integers.      *)
EXTENDS Integers, Sequences, Json, TLC, SequencesExt, Functions
LOCAL Tab == ndJsonDeserialize("tables.json")[1]
LnTab  == Tab.ln
ExpTab == Tab.exp
(* half of what chi square with v degrees of freedom exceeds with probability q/1000 *)
ChiQ == <<500, 750, 900, 950, 990>>
ChiHalf(v, q) == Tab.chi[v][CHOOSE i \in 1..5 : ChiQ[i] = q]
Micro == 1000000

AbsI(x) == IF x < 0 THEN -x ELSE x
MaxI(a, b) == IF a > b THEN a ELSE b
MinI(a, b) == IF a < b THEN a ELSE b

RECURSIVE Gcd(_, _)
Gcd(a, b) == IF b = 0 THEN a ELSE Gcd(b, a % b)

(* ln n in millionths, n a positive integer; beyond the table by halving,  *)
(* ln(2h + 1) - ln(2h) being 1/(2h + 1/2) up to a part in 10^8             *)
RECURSIVE Ln(_)
Ln(n) == IF n <= Len(LnTab) THEN LnTab[n] ELSE LnTab[2] + Ln(n \div 2) + (IF n % 2 = 1 THEN Micro \div n ELSE 0)

(* a * b / 10^6 for 0 <= a, b <= 2 * 10^6 *)
MulMicro(a, b) == ((a \div 1000) * b + (a % 1000) * (b \div 1000)) \div 1000

(* (num / den) in millionths; num / den < 2000, den < 2 * 10^6 *)
DivMicroPos(num, den) ==
  LET q == num \div den
      r == num % den
      t == (r * 1000) \div den
      u == (((r * 1000) % den) * 1000) \div den
  IN q * Micro + t * 1000 + u
DivMicro(num, den) == IF num < 0 THEN -DivMicroPos(-num, den) ELSE DivMicroPos(num, den)

(* exp(-x), x >= 0 in millionths *)
ExpNeg(x) ==
  IF x >= 15 * Micro THEN 0
  ELSE LET k == x \div 15625
           r == x % 15625                     \* < 1/64
           e == Micro - r + ((r * r) \div 1000) \div 2000
       IN MulMicro(ExpTab[k + 1], e)

(* min(1, exp(x)) *)
AccProb(x) == IF x >= 0 THEN Micro ELSE ExpNeg(-x)

(* integer square root *)
RECURSIVE ISqrtIt(_, _)
ISqrtIt(n, x) == LET y == (x + n \div x) \div 2 IN IF y >= x THEN x ELSE ISqrtIt(n, y)
ISqrt(n) == IF n <= 0 THEN 0 ELSE ISqrtIt(n, n \div 2 + 1)

(* c occurrences out of N = 1000 k trials compatible with probability P
   (millionths, known within E millionths)? six standard deviations *)
Expected(k, P) == (k * P + 500) \div 1000
FreqSlack(k, P, E) ==
  LET ex == Expected(k, P)
      v  == (ex * ((Micro - P) \div 1000)) \div 1000 + 1
  IN 6 * (ISqrt(v) + 1) + 5 + (k * E) \div 1000
FreqOK(c, k, P, E) == AbsI(c - Expected(k, P)) <= FreqSlack(k, P, E)

SumSeq(s) == FoldLeft(LAMBDA a, b : a + b, 0, s)
SumOn(f, A) == FoldFunctionOnSet(LAMBDA a, b : a + b, 0, f, A)
=============================================================================
