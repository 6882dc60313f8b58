SPECIFICATION Spec
CONSTANTS
  MaxRuns = 1
  MaxCases = 6
INVARIANTS Exact NoEmpty AtMostAll Reported ShrinkCount LinesExist
CHECK_DEADLOCK FALSE
