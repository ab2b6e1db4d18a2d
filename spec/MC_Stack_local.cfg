SPECIFICATION Spec
INVARIANT Right
CONSTANTS
  P = 2
  NSpec = 3
  Iter = 2
  How = "local"
