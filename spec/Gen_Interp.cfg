SPECIFICATION Spec
CONSTANTS
  MaxLen = 8
