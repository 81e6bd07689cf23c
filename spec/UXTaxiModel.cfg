SPECIFICATION Spec
CONSTANT N = 3
CONSTANT NV = 2
CONSTANT NR = 2
INVARIANT Safe
PROPERTY Staged
PROPERTY Served
CHECK_DEADLOCK FALSE
