SPECIFICATION Spec
CONSTANTS
  Widths = {1, 2, 3, 4, 5, 8}
  MaxRead = 10
  MaxBits = 14
INVARIANTS Stream All Thrift Buffer
PROPERTY Ends
CHECK_DEADLOCK FALSE
