SPECIFICATION Spec
CONSTANTS
  Threads = {1, 2}
  NSlots = 2
  MaxOps = 3
  MaxObj = 2
INVARIANTS Counted NeverDead FreedOnce GoneWhenUnowned Abstract
CHECK_DEADLOCK FALSE
