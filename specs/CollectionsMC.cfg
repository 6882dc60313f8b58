SPECIFICATION Spec
CONSTANTS
  Dom = 4
  Count = 3
  M = 3
  MaxTries = 3
INVARIANTS Distinct AllChunks FixedCount
PROPERTIES OneChange Smaller
CHECK_DEADLOCK FALSE
