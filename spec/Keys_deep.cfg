INIT Init
NEXT Next
CONSTANTS D = 3 W = 2
VIEW View
INVARIANTS Disciplined Independent NotSpent Again
CHECK_DEADLOCK FALSE
