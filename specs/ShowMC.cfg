SPECIFICATION Spec
CONSTANTS
  Bytes = {0, 1, 10, 34, 48, 49, 92, 110, 120, 200}
  MaxStr = 3
  MaxList = 3
  Nums = {0, 1, 9, 10, 123}
INVARIANTS Whole Faithful Printable
PROPERTIES Format Ends
CHECK_DEADLOCK FALSE
