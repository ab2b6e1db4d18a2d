SPECIFICATION Spec
INVARIANTS Refused Chosen
PROPERTY Ends
CHECK_DEADLOCK FALSE
CONSTANTS
  P = 3
  How = "right"
