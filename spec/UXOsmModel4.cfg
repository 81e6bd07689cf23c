SPECIFICATION Spec
CONSTANT NodeSet = {1, 2, 3, 4}
CONSTANT Places = {0, 1, 2}
CONSTANT T = 1
CONSTANT MaxLinks = 3
CONSTANT Bidir = FALSE
INVARIANT Formed
INVARIANT Closed
INVARIANT Connected
INVARIANT Reverse
INVARIANT Done
PROPERTY Agrees
CHECK_DEADLOCK FALSE
