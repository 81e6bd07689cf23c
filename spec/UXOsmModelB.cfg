SPECIFICATION Spec
CONSTANT NodeSet = {1, 2, 3}
CONSTANT Places = {0, 1, 2, 5}
CONSTANT T = 1
CONSTANT MaxLinks = 4
CONSTANT Bidir = TRUE
INVARIANT Formed
INVARIANT Closed
INVARIANT Connected
INVARIANT Reverse
INVARIANT Done
PROPERTY Agrees
CHECK_DEADLOCK FALSE
