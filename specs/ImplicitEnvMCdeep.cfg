SPECIFICATION Spec
CONSTANTS
  Params = {"p", "q"}
  Values = {0, 1, 2}
  MaxDepth = 6
  Default = 0
INVARIANTS SameValues NothingLeft
CHECK_DEADLOCK FALSE
