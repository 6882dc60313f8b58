SPECIFICATION Spec
CONSTANT Bits = 8
INVARIANTS Never InRange First Matches Between Distinct Decreases
CHECK_DEADLOCK FALSE
