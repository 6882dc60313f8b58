SPECIFICATION Spec
CONSTANTS
  Ms = 2
  Ratio = 1
  Tries = 4
  MaxTests = 2
INVARIANTS Right Repro Skips Clean Nested Fresh
CHECK_DEADLOCK FALSE
