SPECIFICATION Spec
INVARIANT Indep
CONSTANTS
  MaxSteps = 6
  Clean = FALSE
  Restore = TRUE
  Blank = TRUE
