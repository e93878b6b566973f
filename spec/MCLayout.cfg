SPECIFICATION Spec
CONSTANTS Store = TRUE
INVARIANTS FixedPoint Stackable Wide Tight
