SPECIFICATION Spec
CONSTANTS
  MaxRuns = 2
  MaxCases = 4
INVARIANTS Exact NoEmpty AtMostAll Reported ShrinkCount LinesExist
CHECK_DEADLOCK FALSE
