SPECIFICATION Spec
INVARIANT MeanOfEverything
CONSTANTS
  P = 2
  N = 3
  Max = 4
  How = "late"
