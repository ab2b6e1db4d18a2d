SPECIFICATION Spec
INVARIANT Marked
CHECK_DEADLOCK FALSE
CONSTANTS
  N = 3
  MaxFits = 4
  How = "stale"
