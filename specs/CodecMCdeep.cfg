SPECIFICATION Spec
CONSTANTS
  Bytes = {0, 1, 2, 3, 64, 127, 128, 129, 255}
  MaxLen = 5
  PathBits = 64
INVARIANTS Faithful Local Refuses Text Digits
CHECK_DEADLOCK FALSE
