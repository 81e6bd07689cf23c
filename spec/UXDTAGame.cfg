SPECIFICATION Fair
CHECK_DEADLOCK FALSE
CONSTANTS NV = 4
NR = 3
MAXC = 9
DAYS = 1
Mode = "game"
Forced = FALSE
INVARIANTS InSet GapOK
PROPERTIES OnlyImproving NoGapNoMove Settles
