SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS NV = 2
NR = 2
MAXC = 2
DAYS = 3
Mode = "any"
Forced = TRUE
INVARIANTS InSet BestOK GapOK
PROPERTIES OnlyImproving NoGapNoMove
