SPECIFICATION MCSpec
CONSTANTS
  Inf = 1000000000
  N = 9
  P = 3
INVARIANT Same
CHECK_DEADLOCK FALSE
