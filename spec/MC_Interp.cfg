SPECIFICATION Spec
INVARIANT Points
INVARIANT Smooth
INVARIANT Boundary
INVARIANT Exact
CONSTANTS
  N = 5
  V = {0, 1, 3}
  Mode = "free"
