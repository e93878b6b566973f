SPECIFICATION Spec
CONSTANTS Values = {0, 1, 2, 4, 5, 7, 8} MaxObs = 4 MaxBins = 7 IsInt = TRUE
INVARIANTS Exists Agree Separate Exact Constant Even Monotone Bounded Right Unique
PROPERTY Repeat
CHECK_DEADLOCK FALSE
