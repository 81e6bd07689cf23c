SPECIFICATION Spec
CONSTANTS N = 5
 Cap = 5
INVARIANTS Bounded Monotone Clamped Additive Whole Counts Spent
CHECK_DEADLOCK FALSE
