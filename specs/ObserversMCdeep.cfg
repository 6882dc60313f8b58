SPECIFICATION Spec
CONSTANTS
  K = 2
  MaxEvals = 5
  MaxRuns = 1
INVARIANTS Prefix InTurn Shape Counted Summary Debuggable
PROPERTY Delivered
CHECK_DEADLOCK FALSE
