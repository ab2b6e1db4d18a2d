SPECIFICATION Spec
INVARIANT Recorded
CHECK_DEADLOCK FALSE
CONSTANTS
  MaxN = 4
  How = "first"
