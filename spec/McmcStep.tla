----------------------------- MODULE McmcStep -----------------------------
(* One iteration of the sampler phase by phase, as bartz.mcmcstep.step     *)
(* does it, with integer leaf values and residuals:                        *)
(*                                                                         *)
(*   Propose    sample_moves: one move for every tree, from the old trees  *)
(*   Parallel   accept_moves_parallel_stage: leaf indices, leaf values and *)
(*              decision axes are changed as if every grow was accepted;   *)
(*              points are counted, affluence and counters computed        *)
(*   Seq        accept_moves_sequential_stage, tree by tree: accept or     *)
(*              not, draw new leaf values, update the residuals            *)
(*   Final      accept_moves_final_stage: prune indices and trees where    *)
(*              the grow was rejected or the prune accepted                *)
(*                                                                         *)
(* Checked: the invariants of C01, C03, C04, C05 at the iteration boundary,*)
(* the residual identity in every intermediate phase, and that the whole   *)
(* refines Ensemble.                                                       *)
EXTENDS HeapTree, TLC

CONSTANTS D, NTree, MS, X, MinPts,
          ReqMin,   \* TRUE iff a minimum number of points is specified
          Y,        \* response, integers
          Values    \* possible leaf values, integers

VARIABLES pc,       \* "propose", "parallel", "seq", "final"
          k,        \* next tree of the sequential stage
          var, split, leaf, li, resid, aff,
          mv,       \* tree -> proposed move
          acc,      \* tree -> accepted?
          cnt,
          oli,      \* history: leaf indices at the start of the iteration
          ocnt      \* history: counters of the previous iteration

vars == <<pc, k, var, split, leaf, li, resid, aff, mv, acc, cnt, oli, ocnt>>

Trees  == 1..NTree
Points == 1..Len(X)
Nodes  == 1..(Full(D) - 1)
NoMove == [allowed |-> FALSE, grow |-> FALSE, node |-> Full(D), v |-> 0, c |-> 0]

Count(l, i) == Cardinality({q \in Points : l[q] = i})

Init ==
  /\ pc = "propose" /\ k = 1
  /\ var   = [t \in Trees |-> Empty(D)]
  /\ split = [t \in Trees |-> Empty(D)]
  /\ leaf  = [t \in Trees |-> [i \in Nodes |-> 0]]
  /\ li    = [t \in Trees |-> [q \in Points |-> 1]]
  /\ oli   = li
  /\ resid = Y
  /\ aff   = [t \in Trees |-> [i \in 1..(Half(D) - 1) |->
                 i = 1 /\ Len(X) >= 2 * MinPts]]
  /\ mv    = [t \in Trees |-> NoMove]
  /\ acc   = [t \in Trees |-> FALSE]
  /\ cnt   = [gp |-> 0, ga |-> 0, pp |-> 0, pa |-> 0]
  /\ ocnt  = cnt

Growable(t) == {i \in UpperLeaves(split[t]) : ReqMin => aff[t][i]}

Moves(t) ==
  LET S == split[t] V == var[t]
      grows == UNION {UNION {
                 LET C == Cuts(V, S, MS, i, v) IN
                 IF C = {}       \* predictor without cutpoints: void proposal
                 THEN {[allowed |-> FALSE, grow |-> TRUE, node |-> i, v |-> v, c |-> 0]}
                 ELSE {[allowed |-> TRUE, grow |-> TRUE, node |-> i, v |-> v, c |-> c] : c \in C}
                 : v \in IF Drawable(V, S, MS, i) = {} THEN {0}
                         ELSE Drawable(V, S, MS, i)} : i \in Growable(t)}
      prunes == {[allowed |-> TRUE, grow |-> FALSE, node |-> i, v |-> 0, c |-> 0]
                  : i \in Prunable(S)}
  IN IF grows \cup prunes = {} THEN {NoMove} ELSE grows \cup prunes

Propose ==
  /\ pc = "propose"
  /\ mv' \in {f \in [Trees -> UNION {Moves(t) : t \in Trees}] :
                \A t \in Trees : f[t] \in Moves(t)}
  /\ oli' = li /\ ocnt' = cnt
  /\ pc' = "parallel"
  /\ UNCHANGED <<k, var, split, leaf, li, resid, aff, acc, cnt>>

GrownIndex(t) ==
  LET m == mv[t] IN
  [q \in Points |->
     IF m.grow /\ li[t][q] = m.node
     THEN 2 * m.node + (IF X[q][m.v + 1] >= m.c THEN 1 ELSE 0)
     ELSE li[t][q]]

Parallel ==
  /\ pc = "parallel"
  /\ li' = [t \in Trees |-> GrownIndex(t)]
  /\ var' = [t \in Trees |->
       IF mv[t].grow THEN [var[t] EXCEPT ![mv[t].node] = mv[t].v] ELSE var[t]]
  /\ leaf' = [t \in Trees |->
       IF mv[t].grow
       THEN [leaf[t] EXCEPT ![2 * mv[t].node] = leaf[t][mv[t].node],
                            ![2 * mv[t].node + 1] = leaf[t][mv[t].node]]
       ELSE leaf[t]]
  /\ aff' = [t \in Trees |-> [i \in 1..(Half(D) - 1) |->
       (IF i = mv[t].node
        THEN Count(li'[t], 2 * i) + Count(li'[t], 2 * i + 1)
        ELSE Count(li'[t], i)) >= 2 * MinPts]]
  /\ cnt' = [gp |-> Cardinality({t \in Trees : mv[t].grow}),
             pp |-> Cardinality({t \in Trees : mv[t].allowed /\ ~mv[t].grow}),
             ga |-> 0, pa |-> 0]
  /\ pc' = "seq" /\ k' = 1
  /\ UNCHANGED <<split, resid, mv, acc, oli, ocnt>>

(* leaves that matter after tree t is updated *)
Relevant(t) ==
  LET S == IF mv[t].grow
           THEN [split[t] EXCEPT ![mv[t].node] = IF mv[t].c = 0 THEN 1 ELSE mv[t].c]
           ELSE split[t]
  IN Leaves(S) \cup (IF mv[t].node < Full(D) THEN {mv[t].node} ELSE {})

SeqStage ==
  /\ pc = "seq"
  /\ \E a \in {FALSE, mv[k].allowed} :
     \E new \in [Relevant(k) -> Values] :
       /\ a /\ ReqMin =>
            /\ Count(li[k], 2 * mv[k].node) >= MinPts
            /\ Count(li[k], 2 * mv[k].node + 1) >= MinPts
       /\ LET m == mv[k]
              toprune == (a /= m.grow)
              drawn == [i \in Nodes |-> IF i \in DOMAIN new THEN new[i] ELSE 0]
              final == IF toprune
                       THEN [drawn EXCEPT ![2 * m.node] = drawn[m.node],
                                          ![2 * m.node + 1] = drawn[m.node]]
                       ELSE drawn
          IN /\ leaf' = [leaf EXCEPT ![k] = final]
             /\ resid' = [q \in Points |->
                  resid[q] + leaf[k][li[k][q]] - final[li[k][q]]]
       /\ acc' = [acc EXCEPT ![k] = a]
  /\ k' = k + 1
  /\ pc' = IF k = NTree THEN "final" ELSE "seq"
  /\ UNCHANGED <<var, split, li, aff, mv, cnt, oli, ocnt>>

ToPrune(t) == acc[t] /= mv[t].grow

Final ==
  /\ pc = "final"
  /\ li' = [t \in Trees |-> [q \in Points |->
       IF ToPrune(t) /\ li[t][q] \div 2 = mv[t].node THEN mv[t].node ELSE li[t][q]]]
  /\ split' = [t \in Trees |->
       IF ToPrune(t) THEN [split[t] EXCEPT ![mv[t].node] = 0]
       ELSE IF mv[t].grow THEN [split[t] EXCEPT ![mv[t].node] = mv[t].c]
       ELSE split[t]]
  /\ cnt' = [cnt EXCEPT !.ga = Cardinality({t \in Trees : acc[t] /\ mv[t].grow}),
                        !.pa = Cardinality({t \in Trees : acc[t] /\ ~mv[t].grow})]
  \* forget what has no meaning, to keep the state space small
  /\ var' = [t \in Trees |-> [i \in DOMAIN var[t] |->
       IF split'[t][i] = 0 THEN 0 ELSE var[t][i]]]
  /\ leaf' = [t \in Trees |-> [i \in Nodes |->
       IF IsLeaf(split'[t], i) THEN leaf[t][i] ELSE 0]]
  /\ mv' = [t \in Trees |-> NoMove] /\ acc' = [t \in Trees |-> FALSE]
  /\ oli' = li' /\ ocnt' = cnt'
  /\ pc' = "propose" /\ k' = 1
  /\ UNCHANGED <<resid, aff>>

Next == Propose \/ Parallel \/ SeqStage \/ Final
Spec == Init /\ [][Next]_vars

(* ---- properties ---- *)
Boundary == pc = "propose"

RECURSIVE Fit(_, _)
Fit(q, t) == IF t = 0 THEN 0 ELSE Fit(q, t - 1) + leaf[t][li[t][q]]
ResidInv == \A q \in Points : resid[q] = Y[q] - Fit(q, NTree)    \* every phase

ValidInv == \A t \in Trees : ValidTree(var[t], split[t], MS)
IndexInv == Boundary => \A t \in Trees : \A q \in Points :
              li[t][q] = Traverse(var[t], split[t], X[q])
AffInv == (Boundary /\ ReqMin) => \A t \in Trees : \A i \in UpperLeaves(split[t]) :
            aff[t][i] = (Count(li[t], i) >= 2 * MinPts)
MinInv == (Boundary /\ ReqMin) => \A t \in Trees :
            Dec(split[t]) # {} => \A i \in Leaves(split[t]) : Count(li[t], i) >= MinPts

Norm(V, S) == [i \in DOMAIN V |-> IF S[i] = 0 THEN 0 ELSE V[i]]
Abs == INSTANCE Ensemble WITH
  MinPts  <- IF ReqMin THEN MinPts ELSE 0,
  var     <- [t \in Trees |-> Norm(var[t], split[t])],
  split   <- split,
  leafidx <- IF Boundary THEN li ELSE oli,
  cnt     <- ocnt
AbsSpec == Abs!Spec
=============================================================================
