SPECIFICATION Spec
CONSTANTS
  MaxLen = 14
  P = 3
