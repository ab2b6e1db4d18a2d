SPECIFICATION Spec
PROPERTY Ends
CHECK_DEADLOCK FALSE
CONSTANTS
  P = 3
  How = "silent"
