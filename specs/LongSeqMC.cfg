SPECIFICATION MCSpec
CONSTANTS
  Inf = 1000000000
  N = 7
  P = 2
INVARIANT Same
CHECK_DEADLOCK FALSE
