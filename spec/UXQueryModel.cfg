SPECIFICATION Spec
CONSTANTS N = 4
 Cap = 4
INVARIANTS Bounded Monotone Clamped Additive Whole Counts Spent
CHECK_DEADLOCK FALSE
