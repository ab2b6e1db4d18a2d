SPECIFICATION Spec
INVARIANT Right
INVARIANT ForcedToOne
CONSTANTS
  P = 2
  NSpec = 3
  Iter = 2
  How = "right"
