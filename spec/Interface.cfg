SPECIFICATION Spec
CONSTANTS Points = {"a", "b", "c"} Train = "a" Bad = {"x", "y"} MaxQueries = 4
INVARIANTS Pure Consistent
PROPERTY FitUntouched
CHECK_DEADLOCK FALSE
