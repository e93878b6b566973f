SPECIFICATION Spec
CONSTANTS Values = {0, 1, 2, 3, 5, 6} MaxObs = 6 MaxBins = 7 IsInt = TRUE
INVARIANTS Exists Agree Separate Exact Constant Even Monotone Bounded Right Unique
PROPERTY Repeat
CHECK_DEADLOCK FALSE
