SPECIFICATION Spec
CONSTANTS
  NRows = 2
  Tids = {"7", "10"}
  Zs = {"1", "2", "3"}
  Pixels = {"5", "30"}
  Emit = FALSE
INVARIANTS Determined Sorted OnlySelected Complete
