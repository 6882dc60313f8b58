SPECIFICATION Spec
CONSTANTS
  MaxCases = 2
  MaxTold = 5
INVARIANTS Passed Kept ShownOk Fails
CHECK_DEADLOCK FALSE
