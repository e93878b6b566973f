SPECIFICATION Spec
CONSTANTS BMax = 4 SMax = 4 KMax = 4
INVARIANTS Done Always
PROPERTY Terminates
