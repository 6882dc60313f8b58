SPECIFICATION Spec
CONSTANTS
  MaxNodes = 3
  Leaves = {0, 1, 3}
  MaxTree = 40
INVARIANTS MapKeepsShape FilterLeavesGood PairHasAll BindStarts BindOrder PostKeeps OnlyHere AllIsEvery Minimal Walks
CHECK_DEADLOCK FALSE
