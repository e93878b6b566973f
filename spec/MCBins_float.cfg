SPECIFICATION Spec
CONSTANTS Values = {0, 2, 3, 9} MaxObs = 6 MaxBins = 7 IsInt = FALSE
INVARIANTS Exists Agree Separate Exact Constant Even Monotone Bounded Right Unique
PROPERTY Repeat
CHECK_DEADLOCK FALSE
