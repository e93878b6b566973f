CONSTANTS D = 3 NTree = 2 MS <- MC_MS X <- MC_X MinPts = 1
SPECIFICATION Spec
INVARIANTS ValidForest IndexInv MinPtsInv LeafInv
PROPERTY StepProps
