SPECIFICATION Spec
INVARIANT RightBins
INVARIANT Counts
INVARIANT Variances
CONSTANTS
  P = 2
  Max = 2
  How = "right"
