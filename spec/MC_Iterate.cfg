SPECIFICATION Spec
INVARIANTS Recorded Stops Fiducial
PROPERTIES NoMore Done
CHECK_DEADLOCK FALSE
CONSTANTS
  MaxN = 4
  How = "right"
