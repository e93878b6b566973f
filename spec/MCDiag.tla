------------------------------- MODULE MCDiag -------------------------------
(* Every array of a small tree: the definitions of Diagnostics against the *)
(* reachability of nodes and the paths of points.                          *)
EXTENDS Diagnostics
CONSTANT D
VARIABLES S, V
N == Half(D) - 1
Init == S \in [1..N -> 0..1] /\ V \in [1..N -> 0..1]
Next == UNCHANGED <<S, V>>
Pts == <<<<0, 0>>, <<0, 1>>, <<1, 0>>, <<1, 1>>, <<0, 1>>>>
RECURSIVE FromRoot(_)
FromRoot(i) == i = 1 \/ (At(S, i \div 2) # 0 /\ FromRoot(i \div 2))
RECURSIVE SumTo(_, _)
SumTo(f, k) == IF k < 0 THEN 0 ELSE f[k] + SumTo(f, k - 1)
StrayIffImproper == (Stray(S) = {}) <=> ProperTree(S)
StrayIffUnreachable == (Stray(S) = {}) <=> (\A i \in Dec(S) : FromRoot(i))
ReachableByPath == \A i \in 1..(2 * N + 1) : i \in Reachable(S) <=> FromRoot(i) /\ (At(S, i) # 0 \/ IsLeaf(S, i))
DeepestLeaf == LET d == {Depth(i) : i \in Leaves(S)} IN ActualDepth(S) \in d /\ \A k \in d : k <= ActualDepth(S)
Proper == Stray(S) = {} =>
  /\ SumTo([k \in 0..(D - 1) |-> DepthCount(<<S, S>>, k)], D - 1) = 2
  /\ SumTo([k \in 0..5 |-> LeavesHolding(V, S, Pts, k)], 5) = Cardinality(Leaves(S))
  /\ SumTo([k \in 0..5 |-> k * LeavesHolding(V, S, Pts, k)], 5) = 5
  /\ Cardinality(Leaves(S)) = Cardinality(Dec(S)) + 1
=============================================================================
