SPECIFICATION Spec
CONSTANT N = 3
CONSTANT M = 3
CONSTANT K = 2
CONSTANT Costs = {1, 2}
CONSTANT Weights = {1, 3}
CONSTANT Rounds = 3
INVARIANT Sound
INVARIANT DistIsMin
PROPERTY NeverLost
CHECK_DEADLOCK FALSE
