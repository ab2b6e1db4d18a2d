SPECIFICATION Spec
INVARIANT Once
CONSTANTS
  P = 3
  N = 4
  How = "root"
