SPECIFICATION Spec
INVARIANT Own
CHECK_DEADLOCK FALSE
CONSTANTS
  N = 3
  How = "nearest"
