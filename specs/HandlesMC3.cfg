SPECIFICATION Spec
CONSTANTS
  Threads = {1, 2, 3}
  NSlots = 2
  MaxOps = 2
  MaxObj = 2
INVARIANTS Counted NeverDead FreedOnce GoneWhenUnowned Abstract
CHECK_DEADLOCK FALSE
