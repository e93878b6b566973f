CONSTANTS D = 3 NTree = 1 MS <- MC_MS0 X <- MC_X0 Y <- MC_Y2 MinPts = 0 ReqMin = TRUE Values = {0, 1}
SPECIFICATION Spec
INVARIANTS ResidInv ValidInv IndexInv AffInv MinInv
PROPERTY AbsSpec
