----------------------------- MODULE HeapTree -----------------------------
(* Decision trees stored as heaps, the data structure of bartz.grove.      *)
(*                                                                         *)
(* A tree of depth d is a pair of sequences V, S of length 2^(d-1)-1: node *)
(* i (root 1, children 2i and 2i+1) is a decision node iff S[i] # 0, and   *)
(* then sends a point x to the right child iff x[V[i]] >= S[i].  The       *)
(* bottom level 2^(d-1)..2^d-1 can only hold leaves, thus has no entries.  *)
(* Predictors are numbered from 0 as in the code; a point is a sequence,   *)
(* so predictor v of x is x[v+1].  V is meaningless where S is 0.          *)
EXTENDS Integers, Sequences, FiniteSets

RECURSIVE Pow2(_)
Pow2(k) == IF k <= 0 THEN 1 ELSE 2 * Pow2(k - 1)

Half(d) == Pow2(d - 1)                 \* decision nodes are < Half(d)
Full(d) == Pow2(d)                     \* nodes are < Full(d)

Parent(i) == i \div 2
Left(i)   == 2 * i
Right(i)  == 2 * i + 1

RECURSIVE Depth(_)
Depth(i) == IF i <= 1 THEN 0 ELSE 1 + Depth(i \div 2)

(* decision rule value at node i, 0 for nodes that cannot hold one *)
At(S, i) == IF i >= 1 /\ i <= Len(S) THEN S[i] ELSE 0

Empty(d) == [i \in 1..(Half(d) - 1) |-> 0]

Dec(S) == {i \in 1..Len(S) : S[i] # 0}

IsLeaf(S, i)   == At(S, i) = 0 /\ (i = 1 \/ At(S, Parent(i)) # 0)
Leaves(S)      == {i \in 1..(2 * Len(S) + 1) : IsLeaf(S, i)}
Prunable(S)    == {i \in Dec(S) : At(S, Left(i)) = 0 /\ At(S, Right(i)) = 0}
UpperLeaves(S) == {i \in 1..Len(S) : IsLeaf(S, i)}     \* not at the bottom

(* every decision node hangs from decision nodes *)
ProperTree(S) == \A i \in Dec(S) : i = 1 \/ At(S, Parent(i)) # 0

(* every rule exists *)
RulesExist(V, S, ms) ==
  \A i \in Dec(S) : /\ V[i] >= 0 /\ V[i] < Len(ms)
                    /\ S[i] >= 1 /\ S[i] <= ms[V[i] + 1]

(* cutpoints left open for predictor v at node i by its ancestors: lo < c < hi *)
RECURSIVE Lo(_, _, _, _)
Lo(V, S, i, v) ==
  IF i <= 1 THEN 0
  ELSE LET a == Parent(i)
           l == Lo(V, S, a, v)
       IN IF V[a] = v /\ i % 2 = 1 /\ S[a] > l THEN S[a] ELSE l
RECURSIVE Hi(_, _, _, _, _)
Hi(V, S, ms, i, v) ==
  IF i <= 1 THEN ms[v + 1] + 1
  ELSE LET a == Parent(i)
           h == Hi(V, S, ms, a, v)
       IN IF V[a] = v /\ i % 2 = 0 /\ S[a] < h THEN S[a] ELSE h

Cuts(V, S, ms, i, v) == (Lo(V, S, i, v) + 1)..(Hi(V, S, ms, i, v) - 1)

(* assumes RulesExist and ProperTree *)
RulesNested(V, S, ms) ==
  \A i \in Dec(S) : S[i] \in Cuts(V, S, ms, i, V[i])

ValidTree(V, S, ms) ==
  ProperTree(S) /\ RulesExist(V, S, ms) /\ RulesNested(V, S, ms)

(* where a point ends *)
RECURSIVE Walk(_, _, _, _)
Walk(V, S, x, i) ==
  IF At(S, i) = 0 THEN i
  ELSE Walk(V, S, x, IF x[V[i] + 1] >= S[i] THEN 2 * i + 1 ELSE 2 * i)
Traverse(V, S, x) == Walk(V, S, x, 1)

Grow(V, S, i, v, c) == <<[V EXCEPT ![i] = v], [S EXCEPT ![i] = c]>>
PruneS(S, i) == [S EXCEPT ![i] = 0]

(* the same decision rules, ignoring the meaningless entries of V *)
SameRules(V, S, V2, S2) == S = S2 /\ \A i \in Dec(S) : V[i] = V2[i]

(* predictors fully used by the ancestors of node i *)
RECURSIVE AncVars(_, _)
AncVars(V, i) == IF i <= 1 THEN {} ELSE {V[Parent(i)]} \cup AncVars(V, Parent(i))
Exhausted(V, S, ms, i) ==
  {v \in AncVars(V, i) : Cuts(V, S, ms, i, v) = {}}
(* predictors a grow of leaf i may draw, and those it may really use *)
Drawable(V, S, ms, i) == (0..(Len(ms) - 1)) \ Exhausted(V, S, ms, i)
Usable(V, S, ms, i) ==
  {v \in 0..(Len(ms) - 1) : Cuts(V, S, ms, i, v) # {}}
=============================================================================
