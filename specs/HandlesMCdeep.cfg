SPECIFICATION Spec
CONSTANTS
  Threads = {1, 2}
  NSlots = 2
  MaxOps = 4
  MaxObj = 3
INVARIANTS Counted NeverDead FreedOnce GoneWhenUnowned Abstract
CHECK_DEADLOCK FALSE
