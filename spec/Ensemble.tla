----------------------------- MODULE Ensemble -----------------------------
(* The forest of bartz as an abstract state machine: what one iteration of *)
(* the sampler may do to the trees, the per point caches and the counters, *)
(* whatever the random numbers.  Real values are abstract here.            *)
(*                                                                         *)
(* One iteration (Step) handles each tree independently: a tree with a     *)
(* growable leaf or a decision node receives one proposal, grow or prune;  *)
(* the proposal is accepted or not.                                        *)
EXTENDS HeapTree, TLC

CONSTANTS D,        \* maximum depth (number of levels)
          NTree,    \* number of trees
          MS,       \* number of cutpoints of each predictor, a sequence
          X,        \* data points, a sequence of points
          MinPts    \* minimum number of points per leaf, 0 if not required

VARIABLES var,      \* tree -> V
          split,    \* tree -> S
          leafidx,  \* tree -> point -> node
          cnt       \* [gp, ga, pp, pa] proposals and acceptances of last step

vars == <<var, split, leafidx, cnt>>

Trees  == 1..NTree
Points == 1..Len(X)

Count(li, i) == Cardinality({k \in Points : li[k] = i})

Growable(S, li) == {i \in UpperLeaves(S) : Count(li, i) >= 2 * MinPts}

ZeroCnt == [gp |-> 0, ga |-> 0, pp |-> 0, pa |-> 0]

Init ==
  /\ var     = [t \in Trees |-> Empty(D)]
  /\ split   = [t \in Trees |-> Empty(D)]
  /\ leafidx = [t \in Trees |-> [k \in Points |-> 1]]
  /\ cnt     = ZeroCnt

(* outcomes of one iteration for one tree: records with the new tree, the  *)
(* new leaf indices and the increments of the counters                     *)
Index(V, S) == [k \in Points |-> Traverse(V, S, X[k])]

GrowOutcomes(V, S, li) ==
  UNION {UNION {
    { [V |-> g[1], S |-> g[2], li |-> Index(g[1], g[2]),
       gp |-> 1, ga |-> 1, pp |-> 0, pa |-> 0]
      : g \in {h \in {Grow(V, S, i, v, c) : c \in Cuts(V, S, MS, i, v)} :
                 LET idx == Index(h[1], h[2]) IN
                   /\ Count(idx, Left(i)) >= MinPts
                   /\ Count(idx, Right(i)) >= MinPts} }
    : v \in Usable(V, S, MS, i)} : i \in Growable(S, li)}

PruneOutcomes(V, S, li) ==
  { [V |-> V, S |-> PruneS(S, i), li |-> Index(V, PruneS(S, i)),
     gp |-> 0, ga |-> 0, pp |-> 1, pa |-> 1] : i \in Prunable(S) }

StayOutcomes(V, S, li) ==
  LET stay(g, p) == [V |-> V, S |-> S, li |-> li,
                     gp |-> g, ga |-> 0, pp |-> p, pa |-> 0]
  IN (IF Growable(S, li) # {} THEN {stay(1, 0)} ELSE {}) \cup
     (IF Dec(S) # {} THEN {stay(0, 1)} ELSE {}) \cup
     (IF Growable(S, li) = {} /\ Dec(S) = {} THEN {stay(0, 0)} ELSE {})

Outcomes(t) ==
  LET V == var[t] S == split[t] li == leafidx[t] IN
  GrowOutcomes(V, S, li) \cup PruneOutcomes(V, S, li) \cup StayOutcomes(V, S, li)

RECURSIVE SumOver(_, _, _)
SumOver(o, f, t) ==
  IF t = 0 THEN 0
  ELSE SumOver(o, f, t - 1) +
       (CASE f = "gp" -> o[t].gp [] f = "ga" -> o[t].ga
          [] f = "pp" -> o[t].pp [] f = "pa" -> o[t].pa)

(* all the choice functions tree -> outcome *)
RECURSIVE Choices(_)
Choices(t) == IF t = 0 THEN {<<>>}
              ELSE {Append(c, o) : c \in Choices(t - 1), o \in Outcomes(t)}

Norm(V, S) == [i \in 1..Len(V) |-> IF S[i] = 0 THEN 0 ELSE V[i]]

Next ==
  \E o \in Choices(NTree) :
     /\ var'     = [t \in Trees |-> Norm(o[t].V, o[t].S)]
     /\ split'   = [t \in Trees |-> o[t].S]
     /\ leafidx' = [t \in Trees |-> o[t].li]
     /\ cnt' = [gp |-> SumOver(o, "gp", NTree), ga |-> SumOver(o, "ga", NTree),
                pp |-> SumOver(o, "pp", NTree), pa |-> SumOver(o, "pa", NTree)]

Spec == Init /\ [][Next]_vars

(* ---- properties: C01, C02 (action), C03, C05 ---- *)
ValidForest == \A t \in Trees : ValidTree(var[t], split[t], MS)

IndexInv == \A t \in Trees : leafidx[t] = Index(var[t], split[t])

MinPtsInv ==
  \A t \in Trees :
    Dec(split[t]) # {} =>
      \A i \in Leaves(split[t]) : Count(leafidx[t], i) >= MinPts

(* leaves partition the points; every leaf box is non-empty *)
LeafInv == \A t \in Trees : \A k \in Points : leafidx[t][k] \in Leaves(split[t])

Grown(S, S2)  == {i \in 1..Len(S) : S[i] = 0 /\ S2[i] # 0}
Pruned(S, S2) == {i \in 1..Len(S) : S[i] # 0 /\ S2[i] = 0}

OneMove(V, S, V2, S2) ==
  LET g == Grown(S, S2) p == Pruned(S, S2) IN
  /\ Cardinality(g) + Cardinality(p) <= 1
  /\ \A i \in g : IsLeaf(S, i)
  /\ \A i \in p : i \in Prunable(S)
  /\ \A i \in Dec(S) \cap Dec(S2) : S[i] = S2[i] /\ V[i] = V2[i]

MoveStep == \A t \in Trees : OneMove(var[t], split[t], var'[t], split'[t])
CountStep ==
  /\ cnt'.ga = Cardinality({t \in Trees : Grown(split[t], split'[t]) # {}})
  /\ cnt'.pa = Cardinality({t \in Trees : Pruned(split[t], split'[t]) # {}})
  /\ cnt'.gp + cnt'.pp =
       Cardinality({t \in Trees : Growable(split[t], leafidx[t]) # {}
                                  \/ Dec(split[t]) # {}})
  /\ cnt'.gp <= Cardinality({t \in Trees : Growable(split[t], leafidx[t]) # {}})
  /\ cnt'.pp <= Cardinality({t \in Trees : Dec(split[t]) # {}})
  /\ cnt'.ga <= cnt'.gp /\ cnt'.pa <= cnt'.pp
StepProps == [][MoveStep /\ CountStep]_vars
=============================================================================
