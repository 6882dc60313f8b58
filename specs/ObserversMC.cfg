SPECIFICATION Spec
CONSTANTS
  K = 3
  MaxEvals = 4
  MaxRuns = 1
INVARIANTS Prefix InTurn Shape Counted Summary Debuggable
PROPERTY Delivered
CHECK_DEADLOCK FALSE
