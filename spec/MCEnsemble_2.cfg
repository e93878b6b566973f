CONSTANTS D = 3 NTree = 1 MS <- MC_MS X <- MC_X MinPts = 2
SPECIFICATION Spec
INVARIANTS ValidForest IndexInv MinPtsInv LeafInv
PROPERTY StepProps
