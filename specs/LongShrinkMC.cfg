SPECIFICATION Spec
CONSTANTS
  Combs <- MCCombs
  MaxW = 3
  MaxD = 4
INVARIANTS BestFails NothingSkipped GreedyResult
PROPERTY Terminates
CHECK_DEADLOCK FALSE
