CONSTANTS D = 3 NTree = 1 MS <- MC_MS X <- MC_X Y <- MC_Y MinPts = 1 ReqMin = TRUE Values = {0, 1}
SPECIFICATION Spec
INVARIANTS ResidInv ValidInv IndexInv AffInv MinInv
PROPERTY AbsSpec
