SPECIFICATION Spec
CONSTANT M = 20
INVARIANTS KeepsContract EmptyFails
CHECK_DEADLOCK FALSE
