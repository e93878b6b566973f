------------------------------ MODULE JForest ------------------------------
(* Judge of recorded chains: every recorded state, and every pair of       *)
(* consecutive states, against HeapTree/Ensemble (C01-C05).                *)
(* RECORDS: one record per recorded state; CHAINS: one per chain.          *)
EXTENDS Judging, HeapTree

Chains == ndJsonDeserialize(IOEnv.CHAINS)

St == Records[idx]
Ch == Chains[St.c]
HasPrev == St.t > 0
Pr == Records[idx - 1]
Trees  == 1..Ch.m
Points == 1..Ch.n
Req    == Ch.minp >= 0
MinPts == IF Req THEN Ch.minp ELSE 0

Count(li, i) == Cardinality({k \in 1..Len(li) : li[k] = i})
Index(V, S)  == [k \in Points |-> Traverse(V, S, Ch.X[k])]
Growable(V, S) ==
  IF ~Req THEN UpperLeaves(S)
  ELSE LET li == Index(V, S) IN {i \in UpperLeaves(S) : Count(li, i) >= 2 * MinPts}

Safe(s) == s.shape = 1 /\ \A t \in Trees :
             ProperTree(s.S[t]) /\ RulesExist(s.V[t], s.S[t], Ch.ms)

(* ---- C01 ---- *)
C01 == Need(St.shape = 1, "shape")
  \cup (IF St.shape # 1 THEN {} ELSE
        Need(\A t \in Trees : ProperTree(St.S[t]), "proper-tree")
   \cup Need(\A t \in Trees : RulesExist(St.V[t], St.S[t], Ch.ms), "rule-exists")
   \cup Need(Safe(St) => \A t \in Trees : RulesNested(St.V[t], St.S[t], Ch.ms), "rule-in-range")
   \cup Need(St.z = 0, "unused-entry"))
  \cup Need(St.nf = 0, "finite") \cup Need(St.s2pos = 1, "variance-positive")
  \cup Need(HasPrev \/ \A t \in Trees : Ch.deep = 1 \/ Dec(St.S[t]) = {}, "initial-single-leaf")

(* ---- C02 ---- *)
Grown(S, S2)  == {i \in 1..Len(S) : S[i] = 0 /\ S2[i] # 0}
Pruned(S, S2) == {i \in 1..Len(S) : S[i] # 0 /\ S2[i] = 0}
OneMove(t) ==
  LET S == Pr.S[t] S2 == St.S[t] V == Pr.V[t] V2 == St.V[t]
      g == Grown(S, S2) p == Pruned(S, S2) IN
  /\ Cardinality(g) + Cardinality(p) <= 1
  /\ \A i \in g : IsLeaf(S, i)
  /\ \A i \in p : i \in Prunable(S)
  /\ \A i \in Dec(S) \cap Dec(S2) : S[i] = S2[i] /\ V[i] = V2[i]
C02 ==
  IF ~HasPrev \/ St.shape # 1 \/ Pr.shape # 1 THEN {}
  ELSE LET gp == St.cnt[1] ga == St.cnt[2] pp == St.cnt[3] pa == St.cnt[4]
           T == Trees
           ng == Cardinality({t \in T : Grown(Pr.S[t], St.S[t]) # {}})
           np == Cardinality({t \in T : Pruned(Pr.S[t], St.S[t]) # {}})
       IN Need(\A t \in T : OneMove(t), "one-move")
     \cup Need(ga = ng, "grow-accept-count")
     \cup Need(pa = np, "prune-accept-count")
     \cup Need(0 <= ga /\ ga <= gp /\ 0 <= pa /\ pa <= pp, "accepted-at-most-proposed")
     \cup (IF ~Safe(Pr) THEN {} ELSE
           LET G == {t \in T : Growable(Pr.V[t], Pr.S[t]) # {}}
               P == {t \in T : Dec(Pr.S[t]) # {}}
           IN Need(gp + pp = Cardinality(G \cup P), "one-proposal-per-tree")
         \cup Need(gp <= Cardinality(G), "grow-proposals")
         \cup Need(pp <= Cardinality(P), "prune-proposals"))

(* ---- C03 ---- *)
C03 == IF ~Safe(St) THEN {}
       ELSE Need(\A t \in Trees : St.li[t] = Index(St.V[t], St.S[t]), "leaf-index")

(* ---- C04: fixed-point arithmetic, tolerance covers the worst float32
   roundoff of all the updates since the start ---- *)
RECURSIVE Fit(_, _)
Fit(k, t) == IF t = 0 THEN 0
             ELSE Fit(k, t - 1) + St.leaf[t][Traverse(St.V[t], St.S[t], Ch.X[k])]
Tol == Ch.m \div 2 + 3 + ((Ch.R \div 4096 + 1) * (3 * (St.t + 1) * Ch.m + 20)) \div 4096
C04 == IF ~Safe(St) \/ St.nf # 0 THEN {}
       ELSE Need(\A k \in Points : Near(St.r[k], Ch.y[k] - Fit(k, Ch.m), Tol), "residual")

(* ---- C05 ---- *)
C05 == IF ~Safe(St) THEN {}
       ELSE Need(\A t \in Trees :
              LET S == St.S[t] V == St.V[t] li == Index(V, S) IN
              Dec(S) # {} =>
                IF MinPts = 0 THEN TRUE
                ELSE \A i \in Leaves(S) : Count(li, i) >= MinPts, "min-points")
  \cup Need(MinPts > 0 /\ Ch.n < 2 * MinPts => \A t \in Trees : Dec(St.S[t]) = {}, "too-few-to-grow")

(* growth not restricted: judged on the whole chain (record of kind "free"):
   with so few points a long chain must have grown leaves without points *)
ChainRecs == {i \in 1..N : Records[i].c = St.c}
Free == Need(Ch.free = 0 \/ St.t # Ch.T \/
             \E i \in ChainRecs : \E t \in Trees :
               Cardinality(Leaves(Records[i].S[t])) > Ch.n + 1, "unrestricted-growth")

Fails ==
  IF St.raised # "" THEN {"raised: " \o St.raised}
  ELSE CASE Prop = "C01" -> C01 [] Prop = "C02" -> C02 [] Prop = "C03" -> C03
         [] Prop = "C04" -> C04 [] Prop = "C05" -> C05 \cup (IF Safe(St) THEN Free ELSE {})

JVerdict == Report(Fails)
=============================================================================
