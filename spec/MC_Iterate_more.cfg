SPECIFICATION Spec
PROPERTY NoMore
CHECK_DEADLOCK FALSE
CONSTANTS
  MaxN = 4
  How = "more"
