SPECIFICATION Spec
INVARIANT Exactly
CONSTANTS
  N = 2
  MaxPix = 2
  Early = FALSE
