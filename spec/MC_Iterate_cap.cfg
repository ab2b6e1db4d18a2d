SPECIFICATION Spec
INVARIANT Stops
CHECK_DEADLOCK FALSE
CONSTANTS
  MaxN = 4
  How = "cap"
