INIT JInit
NEXT JNext
INVARIANT JVerdict
CHECK_DEADLOCK FALSE
