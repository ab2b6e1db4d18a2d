SPECIFICATION Spec
INVARIANT Fiducial
CHECK_DEADLOCK FALSE
CONSTANTS
  MaxN = 4
  How = "replace"
