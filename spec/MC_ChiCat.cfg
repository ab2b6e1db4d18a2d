SPECIFICATION Spec
INVARIANT Once
PROPERTY Written
CONSTANTS
  P = 3
  N = 4
  How = "right"
