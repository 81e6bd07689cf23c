SPECIFICATION Spec
CONSTANT MaxN = 5
INVARIANT OncePerStep
INVARIANT InHorizon
INVARIANT DoneIffEnd
PROPERTY Forward
PROPERTY Moves
PROPERTY Ends
CHECK_DEADLOCK FALSE
