SPECIFICATION Spec
CONSTANT NodeNames = {"a", "b"}
CONSTANT LinkNames = {"l", "m"}
CONSTANT VehNames = {"v"}
CONSTANT Fresh = {"r1", "r2"}
CONSTANT MaxLen = 4
INVARIANT UniqueNames
INVARIANT Connected
PROPERTY Grows
CHECK_DEADLOCK FALSE
