SPECIFICATION Spec
INVARIANT Exact
INVARIANT OnlyListed
CONSTANTS
  M = 5
