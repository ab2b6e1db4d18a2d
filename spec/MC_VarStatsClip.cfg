SPECIFICATION Spec
INVARIANT Counts
CONSTANTS
  P = 2
  Max = 2
  How = "clip"
