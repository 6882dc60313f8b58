SPECIFICATION Spec
CONSTANTS
  Widths = {1, 2, 3, 4, 5, 8, 16, 32, 64}
  MaxRead = 40
  MaxBits = 100
INVARIANTS Stream All Thrift Buffer
CHECK_DEADLOCK FALSE
