SPECIFICATION Spec
CONSTANTS
  KBits = 2
  CMax = 3
  Block = 2
  MaxGens = 4
  MaxSteps = 9
  MaxDepth = 5
INVARIANTS Function Different EqualIsSame SameIsEqual RestoredEqual
CHECK_DEADLOCK FALSE
