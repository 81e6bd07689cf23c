SPECIFICATION Spec
CONSTANT N = 3
CONSTANT NV = 2
CONSTANT NR = 3
INVARIANT Safe
PROPERTY Staged
PROPERTY Served
CHECK_DEADLOCK FALSE
