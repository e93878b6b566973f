------------------------------- MODULE JGrove -------------------------------
(* Judge of tree evaluation (C12) and of the tree helpers (C26).           *)
EXTENDS Judging, HeapTree, SequencesExt, FiniteSetsExt
R == Records[idx]

(* ---- C12 ---- *)
SumF(f, n) == FoldLeftDomain(LAMBDA z, t : z + f[t], 0, f)
Value(F, t, x) == F.L[t][Traverse(F.V[t], F.S[t], x)]
(* one forest F with trees F.V, F.S, F.L; out[k]: prediction at point k *)
SumOK(F, out) == Len(out) = Len(R.X) /\ \A k \in 1..Len(R.X) :
   out[k] = SumF([t \in 1..Len(F.S) |-> Value(F, t, R.X[k])], Len(F.S))
EachOK(F, out) == Len(out) = Len(F.S) /\ \A t \in 1..Len(F.S) :
   Len(out[t]) = Len(R.X) /\ \A k \in 1..Len(R.X) : out[t][k] = Value(F, t, R.X[k])
LeafOK(F, out) == Len(out) = Len(F.S) /\ \A t \in 1..Len(F.S) :
   Len(out[t]) = Len(R.X) /\ \A k \in 1..Len(R.X) : out[t][k] = Traverse(F.V[t], F.S[t], R.X[k])

EvalFails ==
  LET F == [V |-> R.V, S |-> R.S, L |-> R.L] IN
       Need(LeafOK(F, R.ix), "leaf-index")
  \cup Need(SumOK(F, R.sum), "sum-of-trees")
  \cup Need(EachOK(F, R.each), "value-of-each-tree")
TraceFails ==
       Need(Len(R.out) = Len(R.F) /\ R.shape[1] = Len(R.F) /\ R.shape[2] = R.n, "trace-shape")
  \cup Need(Len(R.out) # Len(R.F) \/ \A j \in 1..Len(R.F) : SumOK(R.F[j], R.out[j]), "trace-prediction")

(* every valid tree of depth d was tried at every point *)
Grown(ms, T) == {LET g == Grow(T[1], T[2], i, v, c) IN <<g[1], g[2]>> :
                   <<i, v, c>> \in {<<i, v, c>> \in UpperLeaves(T[2]) \X (0..(Len(ms) - 1)) \X (1..9) :
                                      c \in Cuts(T[1], T[2], ms, i, v)}}
RECURSIVE Close(_, _, _)
Close(ms, A, F) == IF F = {} THEN A
                   ELSE LET B == UNION {Grown(ms, T) : T \in F} \ A IN Close(ms, A \cup B, B)
AllTrees(d, ms) == LET r == <<Empty(d), Empty(d)>> IN Close(ms, {r}, {r})
Norm(V, S) == [i \in DOMAIN V |-> IF S[i] = 0 THEN 0 ELSE V[i]]
AllPoints(ms) == IF Len(ms) = 1 THEN {<<a>> : a \in 0..ms[1]} ELSE {<<a, b>> : a \in 0..ms[1], b \in 0..ms[2]}
ExhFails ==
  LET F == [V |-> R.V, S |-> R.S, L |-> R.L] IN
       Need({<<Norm(R.V[t], R.S[t]), R.S[t]>> : t \in 1..Len(R.S)} = AllTrees(R.d, R.ms) /\ ToSet(R.X) = AllPoints(R.ms), "machinery-not-exhaustive")
  \cup EvalFails

(* ---- C26 ---- *)
B(x) == IF x THEN 1 ELSE 0
HelpFails ==
  LET S == R.S h == Len(R.S) IN
       Need(Len(R.leaf) = h + 1 /\ R.leaf[1] = 0 /\ \A i \in 1..h : R.leaf[i + 1] = B(IsLeaf(S, i)), "is-leaf")
  \cup Need(Len(R.leafb) = 2 * h + 2 /\ R.leafb[1] = 0 /\ \A i \in 1..(2 * h + 1) : R.leafb[i + 1] = B(IsLeaf(S, i)), "is-leaf-bottom")
  \cup Need(Len(R.prun) = h + 1 /\ R.prun[1] = 0 /\ \A i \in 1..h : R.prun[i + 1] = B(i \in Prunable(S)), "is-prunable")
DepthFails == Need(Len(R.depths) = R.len /\ (R.len = 0 \/ R.depths[1] = 0)
                   /\ \A i \in 1..(R.len - 1) : R.depths[i + 1] = Depth(i), "node-depths")
MakeFails == Need(R.size = Full(R.d) /\ R.nonzero = 0 /\ R.ndim = 1 /\ R.sametype = 1, "make-tree")
        \cup Need(R.depth1 = R.d /\ R.depth2 = R.d, "tree-depth")

Fails ==
  IF R.raised # "" THEN {"raised: " \o R.raised}
  ELSE CASE R.kind = "eval" -> EvalFails [] R.kind = "exh" -> ExhFails [] R.kind = "trace" -> TraceFails
         [] R.kind = "help" -> HelpFails [] R.kind = "depth" -> DepthFails [] R.kind = "make" -> MakeFails
JVerdict == Report(Fails)
=============================================================================
