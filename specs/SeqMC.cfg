SPECIFICATION MCSpec
CONSTANTS
  Bound = 8
  Fuel = 30
  Steps = 5
  Handles = 2
INVARIANTS IsList Once Lazy
PROPERTIES StaysEnded Independent
CHECK_DEADLOCK FALSE
