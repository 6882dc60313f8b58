SPECIFICATION Spec
CONSTANTS
  Bytes = {0, 1, 10, 34, 48, 49, 92, 110, 120, 200}
  MaxStr = 4
  MaxList = 4
  Nums = {0, 1, 9, 10, 123}
INVARIANTS Whole Faithful Printable

CHECK_DEADLOCK FALSE
