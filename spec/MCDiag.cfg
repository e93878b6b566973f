INIT Init
NEXT Next
CONSTANT D = 3
INVARIANTS StrayIffImproper StrayIffUnreachable ReachableByPath Proper DeepestLeaf
CHECK_DEADLOCK FALSE
