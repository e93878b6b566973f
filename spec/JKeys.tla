------------------------------- MODULE JKeys -------------------------------
(* Judge of the histories of the random keys (C24).                        *)
EXTENDS Judging
live == 0
hist == 0
K == INSTANCE Keys WITH D <- 0, W <- 0
R == Records[idx]

KeyFails ==
  LET r == R
      E == r.events
      roots == {r.roots[j] : j \in 1..Len(r.roots)}
  IN   Need(K!SpentOnce(E), "key-spent-twice")
  \cup Need(K!Descends(roots, E), "key-not-from-the-given-one")
  \cup Need(K!NewDistinct(roots, E), "same-key-derived-twice")
  \cup Need(r.drawn >= r.need, "too-few-numbers-drawn")

(* joint frequencies of unrelated decisions against the product of the marginals *)
RECURSIVE SumS(_, _)
SumS(s, k) == IF k = 0 THEN 0 ELSE s[k] + SumS(s, k - 1)
RECURSIVE Isqrt_(_, _)
Isqrt_(x, g) == LET h == (g + (x \div g)) \div 2 IN IF h >= g THEN g ELSE Isqrt_(x, h)
Isqrt(x) == IF x <= 1 THEN x ELSE Isqrt_(x, x)
TableFails ==
  LET t == R.table
      rows == TLCEval([i \in 1..Len(t) |-> SumS(t[i], Len(t[i]))])
      cols == TLCEval([j \in 1..Len(t[1]) |-> SumS([i \in 1..Len(t) |-> t[i][j]], Len(t))])
      n == SumS(rows, Len(t))
      Bad(i, j) == LET e == (rows[i] * cols[j]) \div n IN Abs(t[i][j] - e) > 6 * Isqrt(e) + 8
  IN Need(n = 0 \/ \A i \in 1..Len(t), j \in 1..Len(t[1]) : ~Bad(i, j), "decisions-not-independent")

Fails == IF R.raised # "" THEN {"raised: " \o R.raised}
         ELSE IF R.kind = "keys" THEN KeyFails ELSE TableFails
JVerdict == Report(Fails)
=============================================================================
