SPECIFICATION MCSpec
CONSTANTS
  Bound = 8
  Fuel = 30
  Steps = 7
  Handles = 3
INVARIANTS IsList Once Lazy
PROPERTIES StaysEnded Independent
CHECK_DEADLOCK FALSE
