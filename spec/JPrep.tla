-------------------------------- MODULE JPrep --------------------------------
(* Judge of the preprocessing of the predictors (C13, C14, C15).           *)
EXTENDS Judging, Bins, SequencesExt
R == Records[idx]
Row(i) == R.rows[i]
Rows == 1..Len(R.rows)

(* ---- C13: row.X values, row.U distinct ones sorted, row.S doubled       *)
(* cutpoints with padding R.huge, row.M reported number ---- *)
QuantRow(r) ==
  LET m == r.M o == Room(R.n, R.B) IN
       Need(Increasing(r.U) /\ ToSet(r.X) = ToSet(r.U) /\ Len(r.X) = R.n, "machinery-values")
  \cup Need(m = Used(r.U, R.n, R.B), "number-of-cutpoints")
  \cup Need(Len(r.S) = o, "splits-shape")
  \cup (IF m < 0 \/ m > Len(r.S) THEN {} ELSE
          Need(Increasing(SubSeq(r.S, 1, m)), "cutpoints-increasing")
     \cup Need(m # Used(r.U, R.n, R.B) \/ \A k \in 1..m : IsCut(r.S[k], r.U, R.n, R.B, k, R.isint = 1), "cutpoints-midpoints")
     \cup Need(\A k \in (m + 1)..Len(r.S) : r.S[k] = R.huge, "unused-entries"))
QuantFails == Need(Len(R.rows) = R.p, "number-of-rows") \cup UNION {QuantRow(Row(i)) : i \in Rows}

(* values beyond 31 bits, as pairs <<high, low>> in base 2^16 *)
Norm(h, l) == <<h + (l \div 65536), l % 65536>>
Sum(a, b) == Norm(a[1] + b[1], a[2] + b[2])
Less(a, b) == a[1] < b[1] \/ (a[1] = b[1] /\ a[2] < b[2])
BigRow(r) ==
  LET m == Len(r.U) - 1 IN
       Need(\A j \in 1..m : Less(r.U[j], r.U[j + 1]), "machinery-values")
  \cup Need(r.M = m /\ Len(r.S) = Room(R.n, R.B) /\ m <= Len(r.S), "number-of-cutpoints")
  \cup Need(Len(r.S) < m \/ \A k \in 1..m :
         LET t == Sum(r.U[k], r.U[k + 1]) d == Sum(r.S[k], r.S[k]) IN
         d = (IF R.isint = 1 THEN <<t[1], t[2] - (t[2] % 2)>> ELSE t), "cutpoints-midpoints")
  \cup Need(\A k \in (m + 1)..Len(r.S) : r.S[k] = R.huge, "unused-entries")
BigFails == UNION {BigRow(Row(i)) : i \in Rows}

(* ---- C14: row.lo, row.hi extremes of row.X; cutpoints row.S in units    *)
(* 1/R.q; row.rank order of lo, cutpoints, hi ---- *)
GridRow(r) ==
  LET nb == R.nb IN
       Need(r.lo \in ToSet(r.X) /\ r.hi \in ToSet(r.X) /\ (\A x \in ToSet(r.X) : r.lo <= x /\ x <= r.hi), "machinery-values")
  \cup Need(r.M = nb - 1, "number-of-cutpoints")
  \cup Need(Len(r.S) = nb - 1, "splits-shape")
  \cup Need(Len(r.S) # nb - 1 \/ \A j \in 1..(nb - 1) :
         IF R.exact = 1 THEN r.hi - r.lo = nb * r.step /\ Near(r.S[j], R.q * (r.lo + j * r.step), R.tol)
         ELSE r.S[j] < 2000000 /\ r.S[j] > -2000000 /\ Dist(nb * r.S[j], R.q * (nb * r.lo + j * (r.hi - r.lo))) <= nb * R.tol, "cutpoints-evenly-spaced")
  \cup Need(r.hi = r.lo \/ R.order = 0 \/ Increasing(r.rank), "extremes-are-cutpoints")
GridFails == Need(Len(R.rows) = R.p, "number-of-rows") \cup UNION {GridRow(Row(i)) : i \in Rows}

(* ---- C15: row.S all entries of the row of splits, row.X values, row.b   *)
(* bins, row.used number of cutpoints, all in order preserving codes; code *)
(* R.top is infinity or the largest value ---- *)
BinRow(r) ==
       Need(Len(r.b) = Len(r.X) /\ \A k \in 1..Len(r.X) : IsBin(r.b[k], r.X[k], r.S), "bin-interval")
  \cup Need(Len(r.b) # Len(r.X) \/ \A k \in 1..Len(r.X) : r.X[k] >= r.top \/ r.b[k] <= r.used, "bin-beyond-cutpoints")
BinFails ==
       Need(Len(R.rows) = R.p /\ \A i \in Rows : NonDecreasing(Row(i).S), "machinery-splits")
  \cup Need(R.unsigned = 1, "type-not-unsigned")
  \cup Need(\A i \in Rows : R.max >= Len(Row(i).S), "type-too-narrow")
  \cup UNION {BinRow(Row(i)) : i \in Rows}

Fails ==
  IF R.raised # "" THEN {"raised: " \o R.raised}
  ELSE CASE R.kind = "quant" -> QuantFails [] R.kind = "big" -> BigFails
         [] R.kind = "grid" -> GridFails [] R.kind = "bin" -> BinFails
JVerdict == Report(Fails)
=============================================================================
