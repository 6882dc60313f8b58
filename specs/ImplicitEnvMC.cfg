SPECIFICATION Spec
CONSTANTS
  Params = {"p", "q"}
  Values = {0, 1}
  MaxDepth = 5
  Default = 0
INVARIANTS SameValues NothingLeft
CHECK_DEADLOCK FALSE
