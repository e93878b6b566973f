---------------------------- MODULE Diagnostics ----------------------------
(* What the diagnostics of bartz.debug report about trees.                 *)
EXTENDS HeapTree, SequencesExt, TLC

(* decision nodes hanging from a leaf (node 1 hangs from nothing)          *)
Stray(S) == {i \in Dec(S) : i # 1 /\ At(S, Parent(i)) = 0}

RECURSIVE Below(_, _)
Below(S, i) == IF At(S, i) = 0 THEN {i} ELSE {i} \cup Below(S, 2 * i) \cup Below(S, 2 * i + 1)
Reachable(S) == Below(S, 1)

(* depth of the deepest leaf *)
LeafAt(S, k) == \E i \in Full(k)..(2 * Full(k) - 1) : IsLeaf(S, i)
ActualDepth(S) == LET d == Depth(Len(S) + 1)   \* depth of the bottom level
                      L == TLCEval([k \in 0..d |-> LeafAt(S, k)])
                  IN CHOOSE k \in 0..d : L[k] /\ \A j \in (k + 1)..d : ~L[j]
Occurrences(C, k) == Cardinality({t \in 1..Len(C) : C[t] = k})
DepthCount(Ss, k) == Occurrences([t \in 1..Len(Ss) |-> ActualDepth(Ss[t])], k)

(* leaves holding k points *)
Holding(V, S, X, i) == Cardinality({j \in 1..Len(X) : Traverse(V, S, X[j]) = i})
LeavesHolding(V, S, X, k) == Cardinality({i \in Leaves(S) : Holding(V, S, X, i) = k})

(* smallest unsigned type *)
MinType(m) == IF m < 256 THEN "uint8" ELSE IF m < 65536 THEN "uint16" ELSE "uint32"

(* a stored tree: arrays with the unused element 0 first, types, which leaf *)
(* values are finite (1) or not                                            *)
Defects(A) ==
       (IF A.vt = MinType(A.p - 1) /\ A.st = A.mt THEN {} ELSE {"check_types"})
  \cup (IF A.nL = 2 * A.nV /\ A.nL = 2 * A.nS THEN {} ELSE {"check_sizes"})
  \cup (IF A.V[1] = 0 /\ A.S[1] = 0 THEN {} ELSE {"check_unused_node"})
  \cup (IF \A j \in 1..Len(A.fin) : A.fin[j] = 1 THEN {} ELSE {"check_leaf_values"})
  \cup (IF Stray(Tail(A.S)) = {} THEN {} ELSE {"check_stray_nodes"})
=============================================================================
