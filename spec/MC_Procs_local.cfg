SPECIFICATION Spec
INVARIANT Same
CONSTANTS
  MaxP = 4
  N = 5
  Iter = 3
  How = "local"
