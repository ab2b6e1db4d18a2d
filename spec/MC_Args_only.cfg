SPECIFICATION Spec
INVARIANT Refused
CHECK_DEADLOCK FALSE
CONSTANTS
  P = 3
  How = "only"
