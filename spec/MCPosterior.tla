---------------------------- MODULE MCPosterior ----------------------------
(* The prior that the kernel leaves invariant (MCKernel: detailed balance) *)
(* is the law of the generating process given that it is not void: same    *)
(* support, same probabilities in exact arithmetic.                        *)
EXTENDS Posterior
CONSTANTS KK
VARIABLES g
Init == g = Fresh(KK)
Leaf == g.todo # {} /\ g' = AsLeaf(KK, g)
Void == g.todo # {} /\ CanRule(KK, g)
        /\ (Drawable(g.V, g.S, KK.ms, Pick(g)) = {} \/ \E v \in Drawable(g.V, g.S, KK.ms, Pick(g)) : Cuts(g.V, g.S, KK.ms, Pick(g), v) = {})
        /\ g' = AsVoid(g)
Rule == /\ g.todo # {} /\ CanRule(KK, g)
        /\ \E v \in Drawable(g.V, g.S, KK.ms, Pick(g)) : \E c \in Cuts(g.V, g.S, KK.ms, Pick(g), v) :
             LET h == AsRule(KK, g, v, c) IN g' = IF h.ok THEN h ELSE AsVoid(g)
Next == Leaf \/ Void \/ Rule \/ (g.todo = {} /\ UNCHANGED g)
Spec == Init /\ [][Next]_g
All == AllTrees(KK)
Done == g.todo = {} /\ g.ok
SupportIn == Done => <<g.V, g.S>> \in All
ProbabilityAgrees == Done => g.f = Prior(KK, g.V, g.S)
Proper == g.ok => ProperTree(g.S) /\ ValidTree(g.V, g.S, KK.ms)
(* conversely every tree of the support is generated: regenerate it *)
RECURSIVE Gen(_, _)
Gen(h, T) == IF h.todo = {} THEN h
             ELSE LET i == Pick(h) IN Gen(IF At(T[2], i) = 0 THEN AsLeaf(KK, h) ELSE AsRule(KK, h, T[1][i], T[2][i]), T)
SupportOut == g = Fresh(KK) => \A T \in All : LET h == Gen(g, T) IN h.ok /\ <<h.V, h.S>> = T
(* the table adds up to one *)
TableAdds == g = Fresh(KK) => LET P == PriorTable(KK, All) IN AbsI(SumOn(P, All) - Micro) <= 20 + Cardinality(All)

X6 == << <<0, 0>>, <<1, 1>>, <<2, 0>>, <<2, 1>>, <<0, 1>>, <<1, 0>> >>
Base == [d |-> 3, ms |-> <<2, 1>>, w |-> <<8, 4>>, X |-> <<>>, req |-> FALSE, minp |-> 0, m |-> 1, s2a |-> 1, s2b |-> 1]
KA == Base
KB == [Base EXCEPT !.X = X6, !.req = TRUE, !.minp = 1]
KC == [Base EXCEPT !.d = 4, !.ms = <<1, 0, 1>>, !.w = <<12, 8, 10>>]
=============================================================================
