SPECIFICATION Spec
CONSTANTS
  K = 2
  MaxEvals = 3
  MaxRuns = 2
INVARIANTS Prefix InTurn Shape Counted Summary Debuggable
PROPERTY Delivered
CHECK_DEADLOCK FALSE
