SPECIFICATION Spec
CONSTANTS MaxSize = 12 MaxUnit = 4 MaxBudget = 14
INVARIANTS Once NeverTwice Batches Budget Warned
PROPERTY Terminates
CHECK_DEADLOCK FALSE
