SPECIFICATION Spec
CONSTANT Len0 = 7
CONSTANT Dx = {2, 3, 7}
CONSTANT Edt = {3, 4}
CONSTANT MaxT = 5
INVARIANT Conserved
INVARIANT TimeKept
INVARIANT Complete
CHECK_DEADLOCK FALSE
