SPECIFICATION Spec
CONSTANTS Values = {0, 1, 2, 3, 5} MaxLen = 6 MaxSize = 7 Fill = 2
INVARIANT Partial
CHECK_DEADLOCK FALSE
