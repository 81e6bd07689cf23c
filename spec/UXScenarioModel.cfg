SPECIFICATION Spec
CONSTANT NodeNames = {"a"}
CONSTANT LinkNames = {"l"}
CONSTANT Kinds = {"one", "area"}
CONSTANT MaxDem = 3
INVARIANT RoundTrip
INVARIANT Parts
INVARIANT Unique
CHECK_DEADLOCK FALSE
