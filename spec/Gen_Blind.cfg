SPECIFICATION Spec
CONSTANTS
  MaxLen = 5
