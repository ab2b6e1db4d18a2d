SPECIFICATION Spec
INVARIANT Indep
CONSTANTS
  MaxSteps = 6
  Clean = TRUE
  Restore = TRUE
  Blank = TRUE
