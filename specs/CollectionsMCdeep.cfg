SPECIFICATION Spec
CONSTANTS
  Dom = 6
  Count = 4
  M = 3
  MaxTries = 3
INVARIANTS Distinct AllChunks FixedCount
PROPERTIES OneChange Smaller
CHECK_DEADLOCK FALSE
