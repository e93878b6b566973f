CONSTANTS D = 3 NTree = 1 MS <- MC_MS X <- MC_X3 Y <- MC_Y3 MinPts = 0 ReqMin = FALSE Values = {0, 1}
SPECIFICATION Spec
INVARIANTS ResidInv ValidInv IndexInv AffInv MinInv
PROPERTY AbsSpec
